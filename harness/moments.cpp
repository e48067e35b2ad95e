#include "common.hpp"
#include "kpm/default/Compute.hpp"
using namespace hs;
using namespace cpb;

template<class T> struct Any;
template<> struct Any<float> { static float value(char const* n, int m) { return static_cast<float>(sym_dy(n, -m, m)); } };
template<> struct Any<double> { static double value(char const* n, int m) { return sym_dy(n, -m, m); } };
template<class R> struct Any<std::complex<R>> {
    static std::complex<R> value(char const* n, int m) { auto const re = Any<R>::value(n, m); return {re, Any<R>::value(n, m)}; }
};
template<> struct Any<std::complex<float>> {        // single precision holds too few exact products for any value
    static std::complex<float> value(char const* n, int) {
        auto const k = sym_pin(sym_int(n, 0, 2));
        return {k == 2 ? 0.0f : k ? 1.0f : -1.0f, k == 2 ? 1.0f : 0.0f};
    }
};
template<class R> static R cj(R a) { return a; }
template<class R> static std::complex<R> cj(std::complex<R> a) { return {a.real(), -a.imag()}; }
template<class R> static R times(R a, R b) { return a * b; }
template<class R> static std::complex<R> times(std::complex<R> a, std::complex<R> b) {
    return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
}
template<class R> static bool eq(R a, R b) { return a == b; }
template<class R> static bool eq(std::complex<R> a, std::complex<R> b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
static std::complex<double> wide(double x) { return {x, 0}; }
static std::complex<double> wide(std::complex<double> x) { return x; }
static std::complex<double> wide(float x) { return {x, 0}; }
static std::complex<double> wide(std::complex<float> x) { return {x.real(), x.imag()}; }

template<class T> using Vec = std::vector<T>;

// A Hermitian matrix with symbolic elements at the places the pattern says
template<class T> struct Problem {
    int n;
    std::vector<std::vector<T>> h2;             // 2 (H - b) / a
    SparseMatrixX<T> h;
    kpm::Scale<> scale;

    Problem(int n_, int pattern, int m, bool shifted) : n(n_), h2(n_, std::vector<T>(n_, T{0})), h(n_, n_) {
        using R = num::get_real_t<T>;
        auto const single = std::is_same<T, std::complex<float>>::value;
        std::vector<std::pair<int, int>> bonds;
        switch (pattern) {
        case 0: for (int i = 0; i + 1 < n; ++i) { bonds.emplace_back(i, i + 1); } break;
        case 1: for (int i = 0; i + 1 < n; ++i) { bonds.emplace_back(i, i + 1); } if (n > 2) { bonds.emplace_back(0, n - 1); } break;
        case 2: for (int i = 1; i < n; ++i) { bonds.emplace_back(0, i); } break;                                // star
        case 3: for (int i = 0; i + 2 < n; i += 2) { bonds.emplace_back(i, i + 2); } break;                    // with loose states
        }
        scale.a = 2;
        if (shifted) { scale.b = 1; }
        std::vector<std::vector<T>> d(n, std::vector<T>(n, T{0}));
        std::vector<Eigen::Triplet<T, int>> t;
        for (int i = 0; i < n; i += 2) { d[i][i] = T(single ? R(1 - i) : Any<R>::value("onsite", m)); t.emplace_back(i, i, d[i][i]); }
        for (auto const& b : bonds) {
            auto const i = b.first, j = b.second;
            d[i][j] = Any<T>::value("hopping", m);
            d[j][i] = cj(d[i][j]);
            t.emplace_back(i, j, d[i][j]);
            t.emplace_back(j, i, d[j][i]);
        }
        h.setFromTriplets(t.begin(), t.end());
        h.makeCompressed();
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { h2[i][j] = d[i][j] - T(i == j ? scale.b : 0); } }
    }
    Hamiltonian hamiltonian() const { return Hamiltonian(std::make_shared<SparseMatrixX<T>>(h)); }

    // T_0 r ... T_{N-1} r
    std::vector<Vec<T>> chebyshev(Vec<T> const& r, int N) const {
        using R = num::get_real_t<T>;
        std::vector<Vec<T>> t;
        t.push_back(r);
        for (int k = 1; k < N; ++k) {
            Vec<T> v(static_cast<size_t>(n), T{0});
            for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { v[i] += times(h2[i][j], t.back()[j]); } }
            for (int i = 0; i < n; ++i) { if (k == 1) { v[i] = times(v[i], T(R(0.5))); } else { v[i] -= t[static_cast<size_t>(k - 2)][i]; } }
            t.push_back(v);
        }
        return t;
    }
};
template<class T> static T inner(Vec<T> const& l, Vec<T> const& r) { T s{0}; for (size_t i = 0; i < l.size(); ++i) { s += times(cj(l[i]), r[i]); } return s; }
template<class T> static Vec<T> unit(int n, int i) { Vec<T> v(static_cast<size_t>(n), T{0}); v[static_cast<size_t>(i)] = T{1}; return v; }
template<class T> static bool good(ArrayX<T> const& got, Vec<T> const& l, std::vector<Vec<T>> const& t) {
    using R = num::get_real_t<T>;
    bool ok = got.size() == static_cast<idx_t>(t.size());
    for (size_t k = 0; k < t.size() && static_cast<idx_t>(k) < got.size(); ++k) {
        auto m = inner(l, t[k]);
        if (k == 0) { m = times(m, T(R(0.5))); }
        ok &= eq(got[static_cast<idx_t>(k)], m);
    }
    return ok;
}

struct Setup {
    kpm::AlgorithmConfig ac;
    kpm::MatrixFormat format;
    int n, N, pattern;
    bool shifted;
};
// optimal: the calculation starts from and ends at single states (the only time the option is used)
static Setup setup(int min_n, int max_n, bool optimal, int max_moments, int patterns = 4) {
    Setup s;
    s.n = sym_pin(sym_int("size", min_n, max_n));
    s.N = max_moments >= 10 && sym_pin(sym_bool("more moments")) ? (max_moments >= 14 && sym_pin(sym_bool("most moments")) ? 14 : 10) : 6;
    s.pattern = sym_pin(sym_int("pattern", 0, patterns - 1));
    s.format = sym_pin(sym_bool("ell")) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    s.shifted = s.pattern == 1 && sym_pin(sym_bool("shifted"));
    s.ac.interleaved = sym_pin(sym_bool("interleaved"));
    s.ac.optimal_size = optimal && sym_pin(sym_bool("optimal size"));
    return s;
}
static ArrayXi indices(std::vector<int> const& v) {
    ArrayXi a(static_cast<idx_t>(v.size()));
    for (size_t i = 0; i < v.size(); ++i) { a[static_cast<idx_t>(i)] = v[i]; }
    return a;
}

// mu_n = <i| T_n |i>
template<class T> static void diagonal(int min_n, int max_n, int m, int max_moments = 10) {
    auto const s = setup(min_n, max_n, true, max_moments);
    Problem<T> const sys(s.n, s.pattern, m, s.shifted);
    int const i = sym_pin(sym_int("state", 0, s.n - 1));
    kpm::OptimizedHamiltonian oh(sys.hamiltonian(), s.format, s.ac.reorder());
    oh.optimize_for({i, i}, sys.scale);
    kpm::DiagonalMoments moments(s.N);
    kpm::DefaultCompute(1).moments(&moments, kpm::unit_starter(oh), s.ac, oh);
    sym_assert(moments.data.is<ArrayX<T>>(), "moments of the Hamiltonian's scalar type");
    sym_assert(good(moments.data.get<ArrayX<T>>(), unit<T>(s.n, i), sys.chebyshev(unit<T>(s.n, i), s.N)), "mu_n = <i|T_n(H)|i>");
    sym_reach("diagonal");
}
// mu_n = <j| T_n |i> for several j
template<class T> static void units(int min_n, int max_n, int m, int max_moments = 10, bool two = true, int patterns = 4) {
    auto const s = setup(min_n, max_n, true, max_moments, patterns);
    Problem<T> const sys(s.n, s.pattern, m, s.shifted);
    int const i = sym_pin(sym_int("source", 0, s.n - 1));
    std::vector<int> to = {sym_pin(sym_int("target", 0, s.n - 1))};
    if (two && sym_pin(sym_bool("second"))) { to.push_back(sym_pin(sym_int("target", 0, s.n - 1))); }
    kpm::OptimizedHamiltonian oh(sys.hamiltonian(), s.format, s.ac.reorder());
    oh.optimize_for({indices({i}), indices(to)}, sys.scale);
    kpm::MultiUnitMoments moments(s.N, oh.idx());
    kpm::DefaultCompute(1).moments(&moments, kpm::unit_starter(oh), s.ac, oh);
    auto const t = sys.chebyshev(unit<T>(s.n, i), s.N);
    auto const& data = moments.data.template get<std::vector<ArrayX<T>>>();
    sym_assert(data.size() == to.size(), "one set of moments for each target");
    bool ok = true;
    for (size_t k = 0; k < to.size(); ++k) { ok &= good(data[k], unit<T>(s.n, to[k]), t); }
    sym_assert(ok, "mu_n = <j|T_n(H)|i>");
    sym_reach("units");
}
// mu_n = <i| T_n |i> for all i at once
template<class T> static void batch(int min_n, int max_n, int m, int max_count, int max_moments = 10) {
    auto const s = setup(min_n, max_n, true, max_moments);
    Problem<T> const sys(s.n, s.pattern, m, s.shifted);
    std::vector<int> at;
    int const count = sym_pin(sym_int("states", 1, max_count)), first = sym_pin(sym_int("first", 0, s.n - 1));
    for (int k = 0; k < count; ++k) { at.push_back((first + 2 * k) % s.n); }
    kpm::OptimizedHamiltonian oh(sys.hamiltonian(), s.format, s.ac.reorder());
    oh.optimize_for({indices(at), indices(at)}, sys.scale);
    kpm::BatchDiagonalMoments moments(s.N, count, kpm::BatchConcatenator());
    auto const starter = kpm::unit_starter(oh);
    kpm::DefaultCompute(sym_pin(sym_int("threads", 1, 2))).moments(&moments, starter, s.ac, oh);
    auto const& data = moments.data.template get<ArrayXX<T>>();
    bool ok = data.rows() == s.N && data.cols() == count;
    sym_assert(ok, "one column for each state");
    for (int k = 0; k < count; ++k) {
        ok &= good(ArrayX<T>(data.col(k)), unit<T>(s.n, at[static_cast<size_t>(k)]), sys.chebyshev(unit<T>(s.n, at[static_cast<size_t>(k)]), s.N));
    }
    sym_assert(ok, "column k: mu_n = <k|T_n(H)|k>");
    sym_reach("batch");
}
// mu_n = <beta| op T_n |alpha>
template<class T> static void generic(int min_n, int max_n, int m, bool matrix) {
    auto const s = setup(min_n, max_n, false, 6);
    Problem<T> const sys(s.n, s.pattern, m, s.shifted);
    Vec<T> a(static_cast<size_t>(s.n)), b = a;
    VectorXcd alpha(s.n), beta(s.n);
    for (int i = 0; i < s.n; ++i) {
        a[i] = Any<T>::value("alpha", 1); b[i] = matrix ? T(1) : Any<T>::value("beta", 1);
        alpha[i] = wide(a[i]); beta[i] = wide(b[i]);
    }
    SparseMatrixXcd op;
    std::vector<std::vector<T>> dense(static_cast<size_t>(s.n), std::vector<T>(static_cast<size_t>(s.n), T{0}));
    if (matrix) {
        op.resize(s.n, s.n);
        std::vector<Eigen::Triplet<std::complex<double>, int>> t;
        for (int i = 0; i < s.n; ++i) {
            int const j = (i * 2 + 1) % s.n;
            dense[i][j] = Any<T>::value("op", 1);
            t.emplace_back(i, j, wide(dense[i][j]));
        }
        op.setFromTriplets(t.begin(), t.end());
        op.makeCompressed();
    }
    bool const use_beta = sym_pin(sym_bool("left vector"));
    VectorXcd const none;
    kpm::OptimizedHamiltonian oh(sys.hamiltonian(), s.format, s.ac.reorder());
    oh.optimize_for({0, 0}, sys.scale);
    auto const starter = kpm::constant_starter(oh, alpha);
    auto t = sys.chebyshev(a, s.N);
    if (!use_beta && !matrix) {
        kpm::DiagonalMoments moments(s.N);
        kpm::DefaultCompute(1).moments(&moments, starter, s.ac, oh);
        sym_assert(good(moments.data.get<ArrayX<T>>(), a, t), "mu_n = <alpha|T_n(H)|alpha>");
        sym_reach("one vector");
        return;
    }
    kpm::GenericMoments moments(s.N, alpha, use_beta ? beta : none, op);
    kpm::DefaultCompute(1).moments(&moments, starter, s.ac, oh);
    if (matrix) {
        for (auto& v : t) {
            Vec<T> x(static_cast<size_t>(s.n), T{0});
            for (int i = 0; i < s.n; ++i) { for (int j = 0; j < s.n; ++j) { x[i] += times(dense[i][j], v[j]); } }
            v = x;
        }
    }
    sym_assert(good(moments.data.get<ArrayX<T>>(), use_beta ? b : a, t), "mu_n = <beta|op T_n(H)|alpha>");
    sym_reach(matrix ? "operator" : "two vectors");
}
// rows op T_n |alpha>
template<class T> static void rows(int min_n, int max_n, int m) {
    auto const s = setup(min_n, max_n, false, 6);
    Problem<T> const sys(s.n, s.pattern, m, s.shifted);
    Vec<T> a(static_cast<size_t>(s.n));
    VectorXcd alpha(s.n);
    for (int i = 0; i < s.n; ++i) { a[i] = Any<T>::value("alpha", 1); alpha[i] = wide(a[i]); }
    bool const matrix = sym_pin(sym_bool("operator"));
    std::vector<std::vector<T>> dense(static_cast<size_t>(s.n), std::vector<T>(static_cast<size_t>(s.n), T{0}));
    SparseMatrixX<T> op(s.n, s.n);
    std::vector<Eigen::Triplet<T, int>> tr;
    for (int i = 0; i < s.n; ++i) {
        int const j = (i * 2 + 1) % s.n;
        dense[i][j] = matrix ? Any<T>::value("op", 1) : T(1);
        tr.emplace_back(i, j, dense[i][j]);
    }
    op.setFromTriplets(tr.begin(), tr.end());
    op.makeCompressed();
    kpm::OptimizedHamiltonian oh(sys.hamiltonian(), s.format, s.ac.reorder());
    oh.optimize_for({0, 0}, sys.scale);
    auto const starter = kpm::constant_starter(oh, alpha);
    kpm::DenseMatrixMoments moments(s.N, matrix ? VariantCSR(op) : VariantCSR());
    kpm::DefaultCompute(1).moments(&moments, starter, s.ac, oh);
    auto const& data = moments.data.template get<MatrixX<T>>();
    ArrayXi old(s.n);                        // old[k]: the state in column k
    for (int i = 0; i < s.n; ++i) { old[i] = i; }
    oh.reorder(old);
    auto const t = sys.chebyshev(a, s.N);
    bool ok = data.rows() == s.N && data.cols() == s.n;
    sym_assert(ok, "one row for each moment");
    using R = num::get_real_t<T>;
    for (int k = 0; k < s.N; ++k) {
        for (int c = 0; c < s.n; ++c) {
            T x{0};
            if (matrix) { for (int j = 0; j < s.n; ++j) { x += times(dense[old[c]][j], t[k][j]); } } else { x = t[k][old[c]]; }
            if (k == 0) { x = times(x, T(R(0.5))); }
            ok &= eq(data(k, c), x);
        }
    }
    sym_assert(ok, "row n: op T_n(H)|alpha>");
    sym_reach("rows");
}

SYM_HARNESS(diag_double) { diagonal<double>(1, sym_thorough() ? 6 : 5, 1); }
SYM_HARNESS(diag_complex) { diagonal<std::complex<double>>(2, sym_thorough() ? 4 : 3, 1); }
SYM_HARNESS(diag_float) { diagonal<float>(2, sym_thorough() ? 5 : 4, 1, sym_thorough() ? 10 : 6); }
SYM_HARNESS(diag_cfloat) { diagonal<std::complex<float>>(2, 3, 1, 6); }
SYM_HARNESS(units_double) { units<double>(1, sym_thorough() ? 5 : 4, 1, sym_thorough() ? 10 : 6); }
SYM_HARNESS(units_long) { units<double>(5, sym_thorough() ? 6 : 5, 1, 14, sym_thorough(), sym_thorough() ? 4 : 1); }
SYM_HARNESS(units_complex) { units<std::complex<double>>(2, 3, 1, sym_thorough() ? 10 : 6); }
SYM_HARNESS(units_cfloat) { units<std::complex<float>>(2, sym_thorough() ? 3 : 2, 1, 6); }
SYM_HARNESS(batch_cfloat) { batch<std::complex<float>>(2, sym_thorough() ? 3 : 2, 1, 5, 6); }
SYM_HARNESS(units_float) { units<float>(2, 4, 1, 6); }
SYM_HARNESS(batch_double) { batch<double>(2, sym_thorough() ? 5 : 4, 1, sym_thorough() ? 9 : 5, 6); }
SYM_HARNESS(batch_complex) { batch<std::complex<double>>(2, sym_thorough() ? 4 : 3, 1, sym_thorough() ? 5 : 3, 6); }
SYM_HARNESS(batch_float) { batch<float>(2, sym_thorough() ? 4 : 2, 1, sym_thorough() ? 9 : 9, 6); }
SYM_HARNESS(vector_double) { generic<double>(1, sym_thorough() ? 4 : 3, 1, false); }
SYM_HARNESS(vector_complex) { generic<std::complex<double>>(2, sym_thorough() ? 3 : 2, 1, false); }
SYM_HARNESS(operator_double) { generic<double>(2, sym_thorough() ? 4 : 3, 1, true); }
SYM_HARNESS(operator_complex) { generic<std::complex<double>>(2, sym_thorough() ? 3 : 2, 1, true); }
SYM_HARNESS(rows_double) { rows<double>(2, sym_thorough() ? 4 : 3, 1); }
SYM_HARNESS(rows_complex) { rows<std::complex<double>>(2, sym_thorough() ? 3 : 2, 1); }
