#include "common.hpp"
#include "kpm/OptimizedHamiltonian.hpp"
using namespace hs;
using namespace cpb;

template<class T> struct Any;
template<> struct Any<double> { static double value(char const* n, int m) { return sym_dy(n, -m, m); } };
template<> struct Any<std::complex<double>> {
    static std::complex<double> value(char const* n, int m) { auto const re = sym_dy(n, -m, m); return {re, sym_dy(n, -m, m)}; }
};
static double cj(double a) { return a; }
static std::complex<double> cj(std::complex<double> a) { return {a.real(), -a.imag()}; }
static bool eq(double a, double b) { return a == b; }
static bool eq(std::complex<double> a, std::complex<double> b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }

// Any Hermitian matrix with any pattern: `bonds` says which elements are stored (their values may still be zero)
template<class T> struct Problem {
    int n;
    SparseMatrixX<T> h;
    std::vector<std::vector<T>> dense;
    std::vector<std::vector<int>> dist;         // along the stored elements; -1: not connected
    // bonds_from: the nearest neighbours which may be bonded; -1: a chain
    Problem(int n_, int bonds_from) : n(n_), h(n_, n_), dense(n_, std::vector<T>(n_, T{0})), dist(n_, std::vector<int>(n_, -1)) {
        std::vector<std::vector<char>> stored(n, std::vector<char>(n));
        for (int i = 0; i < n; ++i) {
            dist[i][i] = 0;
            for (int j = i; j < n; ++j) {
                if (bonds_from < 0 ? j != i + 1 : (j - i < bonds_from || !sym_bool("stored"))) { continue; }
                stored[i][j] = stored[j][i] = 1;
                if (i == j) { dense[i][i] = T(sym_dy("h", -3, 3)); continue; }
                dist[i][j] = dist[j][i] = 1;
                dense[i][j] = Any<T>::value("h", 3);
                dense[j][i] = cj(dense[i][j]);
            }
        }
        for (int k = 0; k < n; ++k) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) {
            if (dist[i][k] >= 0 && dist[k][j] >= 0 && (dist[i][j] < 0 || dist[i][j] > dist[i][k] + dist[k][j])) { dist[i][j] = dist[i][k] + dist[k][j]; }
        } } }
        std::vector<Eigen::Triplet<T, int>> t;
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (stored[i][j]) { t.emplace_back(i, j, dense[i][j]); } } }
        h.setFromTriplets(t.begin(), t.end());
        h.makeCompressed();
    }
};

static ArrayXi indices(std::vector<int> const& v) {
    ArrayXi a(static_cast<idx_t>(v.size()));
    for (size_t i = 0; i < v.size(); ++i) { a[static_cast<idx_t>(i)] = v[i]; }
    return a;
}
static std::vector<int> choose(char const* name, int n, int max_count) {
    std::vector<int> v;
    int const count = sym_pin(sym_int("count", 1, max_count));
    for (int i = 0; i < count; ++i) { v.push_back(sym_pin(sym_int(name, 0, n - 1))); }
    return v;
}

template<class T> static std::vector<std::vector<T>> dense_of(kpm::OptimizedHamiltonian const& oh, int n, kpm::MatrixFormat f) {
    std::vector<std::vector<T>> d(n, std::vector<T>(n, T{0}));
    bool ok = true;
    if (f == kpm::MatrixFormat::CSR) {
        sym_assert(oh.matrix().is<SparseMatrixX<T>>(), "the matrix has the format and type asked for");
        auto const& m = oh.matrix().get<SparseMatrixX<T>>();
        sym_assert(m.rows() == n && m.cols() == n && m.isCompressed() && m.outerIndexPtr()[0] == 0, "a square compressed matrix");
        for (int r = 0; r < n; ++r) {
            for (auto k = m.outerIndexPtr()[r]; k < m.outerIndexPtr()[r + 1]; ++k) {
                auto const c = m.innerIndexPtr()[k];
                ok &= c >= 0 && c < n;
                if (!ok) { break; }
                d[r][c] += m.valuePtr()[k];
            }
        }
    } else {
        sym_assert(oh.matrix().is<num::EllMatrix<T>>(), "the matrix has the format and type asked for");
        auto const& m = oh.matrix().get<num::EllMatrix<T>>();
        sym_assert(m.rows() == n && m.cols() == n && m.data.cols() == m.nnz_per_row && m.indices.cols() == m.nnz_per_row && m.data.rows() >= n, "a square matrix");
        m.for_each([&](idx_t r, idx_t c, T v) { ok &= c >= 0 && c < n && r >= 0 && r < n; if (ok) { d[r][c] += v; } });
    }
    sym_assert(ok, "every element lies inside the matrix");
    return d;
}

template<class T> static void check(kpm::OptimizedHamiltonian const& oh, Problem<T> const& p, std::vector<int> const& src, std::vector<int> const& dest,
                                    double a, double b, bool reorder, kpm::MatrixFormat f) {
    int const n = p.n;
    ArrayXi map_of(n);
    for (int i = 0; i < n; ++i) { map_of[i] = i; }
    oh.reorder(map_of);                     // map_of[new] = old
    std::vector<int> at(n, -1);
    bool ok = true;
    for (int i = 0; i < n; ++i) { ok &= map_of[i] >= 0 && map_of[i] < n && at[map_of[i]] < 0; if (ok) { at[map_of[i]] = i; } }
    sym_assert(ok, "the new order is a permutation");

    auto const d = dense_of<T>(oh, n, f);
    bool same = true;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) { same &= eq(d[at[i]][at[j]], (p.dense[i][j] - T(i == j ? b : 0)) * T(2 / a)); }
    }
    sym_assert(same, "the matrix is 2 (H - b) / a in the new order");

    auto reordered = p.h;
    oh.reorder(reordered);
    same = reordered.rows() == n && reordered.cols() == n && reordered.nonZeros() == p.h.nonZeros();
    sym_assert(same, "an operator keeps its elements");
    for (int r = 0; r < n; ++r) {
        for (typename SparseMatrixX<T>::InnerIterator it(reordered, r); it; ++it) { same &= eq(it.value(), p.dense[map_of[r]][map_of[it.col()]]); }
    }
    sym_assert(same, "operators are put into the same order");

    ok = oh.idx().src.size() == static_cast<idx_t>(src.size()) && oh.idx().dest.size() == static_cast<idx_t>(dest.size());
    sym_assert(ok, "as many indices as asked for");
    for (size_t i = 0; i < src.size(); ++i) { ok &= oh.idx().src[static_cast<idx_t>(i)] == at[src[i]]; }
    for (size_t i = 0; i < dest.size(); ++i) { ok &= oh.idx().dest[static_cast<idx_t>(i)] == at[dest[i]]; }
    sym_assert(ok, "the indices denote the same states");
    sym_assert(oh.idx().is_diagonal() == (src == dest), "diagonal if the states are the same");
    sym_assert(oh.size() == n && (oh.scalar_tag().is<var::tag<T>>()), "size and type");

    auto const& sm = oh.map();
    auto const& borders = sm.get_data();
    ok = !borders.empty() && borders.back() == n && borders.front() > 0;
    for (size_t i = 1; i < borders.size(); ++i) { ok &= borders[i] > borders[i - 1]; }
    sym_assert(ok, "the slices add up to the whole matrix");
    if (reorder) {
        for (int N = 2; N <= 2 * n + 4; ++N) {
            for (int m = 2; m < N; ++m) {
                auto const index = sm.index(m, N);
                ok &= index >= 0 && index <= sm.last_index();
                if (!ok) { break; }
                auto const size = sm.optimal_size(m, N);
                for (int s = 0; s < n; ++s) {
                    bool filled = false, needed = false;
                    for (auto x : src) { filled |= p.dist[s][x] >= 0 && p.dist[s][x] <= m; }
                    for (auto x : dest) { needed |= p.dist[s][x] >= 0 && p.dist[s][x] <= N - 1 - m; }
                    ok &= !(filled && needed) || at[s] < size;
                }
            }
        }
        sym_assert(ok, "every state which contributes to a later moment is multiplied");
    }
}

template<class T> static void run(int n, int max_idx, int again, int bonds_from, bool formats = true, int max_src = 1) {
    Problem<T> p(n, bonds_from);
    Hamiltonian const h(std::make_shared<SparseMatrixX<T>>(p.h));
    auto const f = formats && sym_bool("ell") ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    bool const reorder = sym_bool("reorder");
    kpm::OptimizedHamiltonian oh(h, f, reorder);
    kpm::Scale<> s;
    s.a = 4;
    if (sym_pin(sym_bool("shifted"))) { s.a = 0.5; s.b = 1.5; }
    for (int k = 0; k <= again; ++k) {
        // sources which are also the destinations, or some of both
        bool const diagonal = sym_pin(sym_bool("diagonal"));
        auto const src = choose("src", n, diagonal ? max_idx : max_src), dest = diagonal ? src : choose("dest", n, max_idx);
        oh.optimize_for({indices(src), indices(dest)}, s);
        check(oh, p, src, dest, s.a, s.b, reorder, f);
    }
    sym_reach(reorder ? "reordered" : "scaled");
}

SYM_HARNESS(ham_real) { run<double>(sym_thorough() ? 4 : 3, 2, 0, 0); }
SYM_HARNESS(ham_complex) { run<std::complex<double>>(sym_thorough() ? 4 : 3, 1, 0, 0); }
SYM_HARNESS(ham_again) { run<double>(sym_thorough() ? 3 : 2, 2, 1, 0, false); }
SYM_HARNESS(ham_bonds) { run<double>(sym_thorough() ? 5 : 4, 1, 0, 1); }
SYM_HARNESS(ham_chain) { run<double>(sym_pin(sym_int("states", 2, sym_thorough() ? 7 : 5)), 2, 0, -1, false, 2); }
