#include "common.hpp"
#include "solver/Solver.hpp"
using namespace hs;
using namespace cpb;

// A strategy which answers with what it was given: the diagonal of its matrix as eigenvalues and its rows as vectors
static int made, solved;
struct StubConfig { bool refuse = false; };
template<class scalar_t> class Stub : public SolverStrategy {
    using real_t = num::get_real_t<scalar_t>;
    SparseMatrixRC<scalar_t> h;
    StubConfig c;
    ArrayX<real_t> values;
    ColMajorArrayXX<scalar_t> vectors;
public:
    using Config = StubConfig;
    Stub(SparseMatrixRC<scalar_t> h, Config const& c) : h(std::move(h)), c(c) { ++made; }
    bool change_hamiltonian(Hamiltonian const& n) override {
        if (c.refuse || !ham::is<scalar_t>(n)) { return false; }
        h = ham::get_shared_ptr<scalar_t>(n);
        return true;
    }
    void solve() override {
        ++solved;
        values.resize(h->rows());
        vectors = ColMajorArrayXX<scalar_t>::Zero(h->rows(), h->rows());
        for (int r = 0; r < h->rows(); ++r) {
            for (auto k = h->outerIndexPtr()[r]; k < h->outerIndexPtr()[r + 1]; ++k) {
                auto const i = h->innerIndexPtr()[k];
                auto const v = h->valuePtr()[k];
                if (i == r) { values[r] = std::real(v); }
                vectors(r, i) = v;
            }
        }
    }
    std::string report(bool) const override { return {}; }
    RealArrayConstRef eigenvalues() const override { return arrayref(values); }
    ComplexArrayConstRef eigenvectors() const override { return arrayref(vectors); }
};

static Model model(int cells, int kind, bool fails) {
    Lattice l({16, 0, 0});
    l.add_sublattice("A", {0, 0, 0}, sym_dy("onsite", 1, 64));
    l.add_sublattice("B", {1, 2, 4}, sym_dy("onsite", 1, 64));
    l.add_hopping({0, 0, 0}, "A", "B", cplx(sym_dy("hopping", 1, 64), kind & 1 ? 2.0 : 0.0));
    l.add_hopping({1, 0, 0}, "A", "B", cplx(-3));
    Model m(l, Primitive(cells));
    m.add(OnsiteModifier([fails](ComplexArrayRef, CartesianArrayConstRef, string_view) { if (fails) { throw std::runtime_error("fails"); } },
                         false, (kind & 2) != 0));
    return m;
}
struct Real { std::vector<double>* out; template<class A> ArrayXd operator()(A a) const { for (idx_t i = 0; i < a.size(); ++i) { out->push_back(a[i]); } return ArrayXd(0); } };
struct Cplx { std::vector<cplx>* out; int* cols; template<class A> ArrayXd operator()(A a) const {
    *cols = static_cast<int>(a.cols());
    for (idx_t i = 0; i < a.rows(); ++i) { for (idx_t j = 0; j < a.cols(); ++j) { out->push_back(cplx(a(i, j))); } }
    return ArrayXd(0);
} };
static std::vector<double> reals(RealArrayConstRef r) { std::vector<double> v; num::match<ArrayX>(r, Real{&v}); return v; }

static void in_step(BaseSolver& s, Dense const& h, int sites, bool vectors) {
    sym_assert(s.system()->num_sites() == sites && s.get_model().system()->num_sites() == sites, "the system is that of the current model");
    auto const values = reals(s.eigenvalues());
    bool ok = static_cast<int>(values.size()) == h.n;
    sym_assert(ok, "as many eigenvalues as the strategy found for the current model");
    for (int i = 0; i < h.n; ++i) { ok &= values[static_cast<size_t>(i)] == h(i, i).real(); }
    sym_assert(ok, "the eigenvalues are those of the current model");
    if (!vectors) { return; }
    std::vector<cplx> v; int cols = 0;
    num::match<ColMajorArrayXX>(s.eigenvectors(), Cplx{&v, &cols});
    sym_assert(cols == h.n && v.size() == h.v.size(), "eigenvectors of the size of the current model");
    ok = true;
    for (size_t i = 0; i < v.size(); ++i) { ok &= same(v[i], h.v[i]); }
    sym_assert(ok, "the eigenvectors are those of the current model");
}
static void history(int steps) {
    int cells = sym_pin(sym_int("cells", 1, 2)), kind = sym_pin(sym_int("type", 0, 3));
    Model first = model(cells, kind, false);
    StubConfig config;
    config.refuse = sym_pin(sym_bool("strategies are used once"));
    made = solved = 0;
    Solver<Stub> s(first, config);
    Dense h = to_dense(first.hamiltonian());
    bool fresh = false;
    int expected = 0;
    for (int k = 0; k < steps; ++k) {
        switch (sym_pin(sym_int("step", 0, 4))) {
        case 0: s.solve(); if (!fresh) { ++expected; fresh = true; } break;
        case 1: s.clear(); fresh = false; break;
        case 2: in_step(s, h, 2 * cells, k & 1); if (!fresh) { ++expected; fresh = true; } break;
        case 3: {
            int const n = 3 - cells;
            kind = sym_pin(sym_int("type", 0, 3));
            Model const next = model(n, kind, false);
            s.set_model(next);
            cells = n; h = to_dense(next.hamiltonian()); fresh = false;
            break;
        }
        case 4: {
            bool rejected = false;
            try { s.set_model(model(3, kind, true)); } catch (std::exception const&) { rejected = true; }
            sym_assert(rejected, "a model which cannot be built is rejected");
            int const before = solved;      // results may be computed again, or kept
            s.solve();
            expected += solved - before; fresh = true;
            break;
        }
        }
        sym_assert(solved == expected, "solved once for each model, unless cleared");
    }
    in_step(s, h, 2 * cells, true);
    if (!fresh) { ++expected; }
    sym_assert(solved == expected, "solved once for each model, unless cleared");
    in_step(s, h, 2 * cells, true);
    sym_assert(solved == expected, "reading results does not compute them again");
    sym_reach("history");
}

// The densities are sums over the eigenpairs
struct Given { std::vector<double> values; std::vector<cplx> vectors; int rows = 0; };
static Given given;
template<class scalar_t> class Fixed : public SolverStrategy {
    using real_t = num::get_real_t<scalar_t>;
    ArrayX<real_t> values;
    ColMajorArrayXX<scalar_t> vectors;
    static void set(float& x, cplx v) { x = static_cast<float>(v.real()); }
    static void set(double& x, cplx v) { x = v.real(); }
    template<class R> static void set(std::complex<R>& x, cplx v) { x = {static_cast<R>(v.real()), static_cast<R>(v.imag())}; }
public:
    using Config = StubConfig;
    Fixed(SparseMatrixRC<scalar_t>, Config const&) {}
    bool change_hamiltonian(Hamiltonian const&) override { return false; }
    void solve() override {
        idx_t const n = static_cast<idx_t>(given.values.size());
        values.resize(n); vectors.resize(given.rows, n);
        for (idx_t i = 0; i < n; ++i) { values[i] = static_cast<real_t>(given.values[static_cast<size_t>(i)]); }
        for (idx_t i = 0; i < given.rows; ++i) { for (idx_t j = 0; j < n; ++j) { set(vectors(i, j), given.vectors[static_cast<size_t>(i * n + j)]); } }
    }
    std::string report(bool) const override { return {}; }
    RealArrayConstRef eigenvalues() const override { return arrayref(values); }
    ComplexArrayConstRef eigenvectors() const override { return arrayref(vectors); }
};
static double gauss(double d, double b) { return std::exp(-0.5 * d * d / (b * b)) / (b * std::sqrt(2 * M_PI)); }
static void densities(int kind, int limit) {
    given = Given();
    given.rows = sym_pin(sym_int("rows", 1, limit));
    int const n = sym_pin(sym_int("states", 1, limit));        // a part of the spectrum, say
    float const b = sym_pin(sym_bool("narrow")) ? 0.25f : 1.5f;
    for (int j = 0; j < n; ++j) { given.values.push_back(sym_pin(sym_int("energy", 0, 3)) * 0.5 - 0.5); }
    for (int i = 0; i < given.rows * n; ++i) { auto const r = sym_dy("re", -8, 8); given.vectors.push_back(kind & 1 ? cplx(r, sym_dy("im", -8, 8)) : cplx(r)); }
    Solver<Fixed> s(model(1, kind, false));
    if (sym_pin(sym_bool("local"))) {
        float const e = sym_pin(sym_bool("above")) ? 0.75f : -0.25f;
        auto const got = s.calc_spatial_ldos(e, b);
        sym_assert(got.size() == given.rows, "a value for each row of the vectors");
        for (int i = 0; i < given.rows; ++i) {
            double want = 0;
            for (int j = 0; j < n; ++j) { auto const v = given.vectors[static_cast<size_t>(i * n + j)]; want += gauss(given.values[static_cast<size_t>(j)] - e, b) * (v.real() * v.real() + v.imag() * v.imag()); }
            sym_close(got[i], want, 1e-4 * 64 * n, "the local density is the sum of |psi|^2 with Gaussian weights");
        }
    } else {
        ArrayXf e(sym_pin(sym_int("energies", 0, 3)));
        for (idx_t i = 0; i < e.size(); ++i) { e[i] = 0.5f * static_cast<float>(i) - 0.75f; }
        auto const got = s.calc_dos(e, b);
        sym_assert(got.size() == e.size(), "a value for each energy");
        for (idx_t i = 0; i < e.size(); ++i) {
            double want = 0;
            for (int j = 0; j < n; ++j) { want += gauss(given.values[static_cast<size_t>(j)] - e[i], b); }
            sym_close(got[i], want, 1e-5 * n, "the density is the sum of Gaussians at the eigenvalues");
        }
    }
    sym_reach("densities");
}

SYM_HARNESS(solver_history) { history(sym_thorough() ? 4 : 3); }
SYM_HARNESS(solver_density_float) { densities(0, 2); }
SYM_HARNESS(solver_density_cfloat) { densities(1, 2); }
SYM_HARNESS(solver_density_double) { densities(2, 3); }
SYM_HARNESS(solver_density_complex) { densities(3, 2); }
