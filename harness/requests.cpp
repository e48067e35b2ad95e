#include "common.hpp"
#include "KPM.hpp"
#include <Eigen/Eigenvalues>
using namespace hs;
using namespace cpb;

// What the calculation asked of the compute engine
struct Log {
    int calls = 0;
    bool given = false;                // starting vectors are given by the user
    std::vector<int> vectors;          // states of the unit starting vectors
    std::vector<double> left, right;   // magnitudes found in the operators of a conductivity
};

// Answers with moments that tell which states they are for: only the first one is not zero
struct Stub : kpm::Compute::Interface {
    Log* log;
    explicit Stub(Log* log) : log(log) {}

    static std::vector<int> order(kpm::OptimizedHamiltonian const& oh) {
        ArrayXi old(oh.size());
        for (idx_t i = 0; i < old.size(); ++i) { old[i] = static_cast<int>(i); }
        oh.reorder(old);
        return {old.data(), old.data() + old.size()};
    }
    template<class T> struct Answer {
        Log* log; kpm::Starter const& s; kpm::OptimizedHamiltonian const& oh;

        int state(VectorX<T> const& r0) const {
            int found = -1;
            for (idx_t i = 0; i < r0.size(); ++i) {
                if (r0[i] == T(0)) { continue; }
                sym_assert(found < 0 && r0[i] == T(1), "a unit starting vector");
                found = order(oh)[static_cast<size_t>(i)];
            }
            sym_assert(found >= 0, "a unit starting vector");
            return found;
        }
        VectorX<T> next() const { return kpm::make_r0(s, var::tag<VectorX<T>>{}, 1); }

        void operator()(kpm::DiagonalMoments* m) const {
            auto const r0 = next();
            ArrayX<T> a = ArrayX<T>::Zero(m->num_moments);
            if (!log->given) {
                int const i = state(r0);
                log->vectors.push_back(i);
                a[0] = T(i + 1);
            }
            m->data = a;
        }
        void operator()(kpm::BatchDiagonalMoments* m) const {
            for (idx_t k = 0; k < m->num_vectors; ++k) {
                auto const r0 = next();
                ArrayX<T> a = ArrayX<T>::Zero(m->num_moments);
                bool unit = r0.size() == 1;
                for (idx_t i = 0; i < r0.size(); ++i) { unit |= r0[i] == T(0); }
                if (unit) {
                    int const i = state(r0);
                    log->vectors.push_back(i);
                    a[0] = T(i + 1);
                } else {
                    log->vectors.push_back(-1);
                    a[0] = T(static_cast<int>(k) + 1);
                }
                m->add(a, k);
            }
        }
        void operator()(kpm::GenericMoments* m) const {
            next();
            ArrayX<T> a = ArrayX<T>::Zero(m->num_moments);
            for (idx_t i = 0; i < a.size(); ++i) { a[i] = T(static_cast<int>(i) + 1); }
            m->data = a;
        }
        void operator()(kpm::MultiUnitMoments* m) const {
            int const i = state(next());
            log->vectors.push_back(i);
            std::vector<ArrayX<T>> v;
            for (idx_t k = 0; k < m->idx.dest.size(); ++k) {
                int const j = order(oh)[static_cast<size_t>(m->idx.dest[k])];
                ArrayX<T> a = ArrayX<T>::Zero(m->num_moments);
                a[0] = T(16 * (i + 1) + j + 1);
                v.push_back(a);
            }
            m->data = v;
        }
        void operator()(kpm::DenseMatrixMoments* m) const {
            auto const r0 = next();
            if (m->op) {
                auto const& op = m->op.template get<T>();
                for (idx_t n = 0; n < op.nonZeros(); ++n) { log->right.push_back(std::abs(op.valuePtr()[n])); }
            } else {
                for (idx_t n = 0; n < r0.size(); ++n) { log->left.push_back(std::abs(r0[n])); }
            }
            m->data = MatrixX<T>(MatrixX<T>::Constant(m->num_moments, r0.size(), T(1)));
        }
    };
    struct Ask {
        Log* log; kpm::MomentsRef m; kpm::Starter const& s; kpm::OptimizedHamiltonian const& oh;
        template<class T> void operator()(var::tag<T>) { var::apply_visitor(Answer<T>{log, s, oh}, m); }
    };
    void moments(kpm::MomentsRef m, kpm::Starter const& s, kpm::AlgorithmConfig const&, kpm::OptimizedHamiltonian const& oh) const override {
        ++log->calls;
        Ask ask{log, m, s, oh};
        var::apply_visitor(ask, oh.scalar_tag());
    }
};

static Lattice lattice(bool orbitals, bool cx) {
    Lattice l({16, 0, 0});
    l.add_sublattice("A", {0, 0, 0}, MatrixXcd(MatrixXcd::Constant(1, 1, 1.0)));
    if (orbitals) { MatrixXcd e(2, 2); e << 1, 0.5, 0.5, -1; l.add_sublattice("B", {1, 2, 4}, e); }
    else { l.add_sublattice("B", {1, 2, 4}, MatrixXcd(MatrixXcd::Constant(1, 1, -1.0))); }
    MatrixXcd t(1, orbitals ? 2 : 1);
    for (int j = 0; j < t.cols(); ++j) { t(0, j) = cplx(1 + j, cx ? 1 : 0); }
    l.register_hopping_energy("t", t);
    l.add_hopping({0, 0, 0}, "A", "B", "t");
    l.add_hopping({1, 0, 0}, "A", "B", "t");
    return l;
}
static kpm::Config config() {
    kpm::Config c;
    c.min_energy = -8; c.max_energy = 8;
    c.algorithm.interleaved = sym_pin(sym_bool("interleaved"));
    c.algorithm.optimal_size = sym_pin(sym_bool("optimal size"));
    c.matrix_format = sym_pin(sym_bool("ell")) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    return c;
}
static ArrayXd energies(int n) { ArrayXd e(n); for (int i = 0; i < n; ++i) { e[i] = i - 1; } return e; }
static double const A = 8 * (1 + 0.01);         // the scale of (-8, 8)
static bool close(cplx got, cplx want) { return std::abs(got - want) <= 1e-4 * std::abs(want) + 1e-12; }
static bool is_density(double got, double e, double mu0) {
    double const x = e / A;
    return close(got, 2 / (M_PI * A) / std::sqrt(1 - x * x) * mu0);
}
static bool is_green(cplx got, double e, double mu0) {
    double const x = e / A;
    return close(got, cplx(0, -2) / A / std::sqrt(1 - x * x) * mu0);
}

// Green's function between two states
SYM_HARNESS(req_greens) {
    bool const orbitals = sym_pin(sym_bool("orbitals")), cx = sym_pin(sym_bool("complex"));
    int const cells = sym_pin(sym_int("cells", 1, sym_thorough() ? 3 : 2)), n = cells * (orbitals ? 3 : 2);
    Log log;
    KPM kpm(Model(lattice(orbitals, cx), Primitive(cells)), Stub(&log), config());
    int const row = sym_int("row", -3, n + 3), col = sym_int("col", -3, n + 3);
    int const ne = sym_pin(sym_int("energies", 0, 2));
    bool const valid = (row >= 0) & (row < n) & (col >= 0) & (col < n);
    bool rejected = false;
    ArrayXcd g;
    try { g = kpm.calc_greens(row, col, energies(ne), 4); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == !valid, "an index is rejected exactly if it is outside the Hamiltonian");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    sym_assert(g.size() == ne, "one value for each energy");
    int const i = sym_pin(row), j = sym_pin(col);
    sym_assert(log.calls == 1 && log.vectors.size() == 1 && log.vectors[0] == i, "the calculation starts from the state asked for");
    bool ok = true;
    for (int k = 0; k < ne; ++k) { ok &= is_green(g[k], energies(ne)[k], i == j ? i + 1 : 16 * (i + 1) + j + 1); }
    sym_assert(ok, "the values are those of the two states");
    sym_reach("answered");
}
// ... between one state and several
SYM_HARNESS(req_vector) {
    int const cells = 2, n = 2 * cells;
    Log log;
    kpm::Config c = config();
    KPM kpm(Model(lattice(false, sym_pin(sym_bool("complex"))), Primitive(cells)), Stub(&log), c);
    int const row = sym_int("row", -1, n + 1);
    int const count = sym_pin(sym_int("cols", 0, sym_thorough() ? 3 : 2)), ne = 2;
    std::vector<int> at;
    bool valid = (row >= 0) & (row < n);
    for (int k = 0; k < count; ++k) { at.push_back(sym_int("col", -1, n + 1)); valid &= (at.back() >= 0) & (at.back() < n); }
    bool rejected = false;
    std::vector<ArrayXcd> g;
    try { g = kpm.calc_greens_vector(row, {at.begin(), at.end()}, energies(ne), 4); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == !valid, "a list is rejected exactly if one of its indices is outside the Hamiltonian");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    sym_assert(static_cast<int>(g.size()) == count, "one result for each column");
    if (static_cast<int>(g.size()) != count) { return; }
    int const i = sym_pin(row);
    bool ok = true;
    for (int k = 0; k < count; ++k) {
        int const j = sym_pin(at[static_cast<size_t>(k)]);
        ok &= g[static_cast<size_t>(k)].size() == ne;
        if (g[static_cast<size_t>(k)].size() != ne) { break; }
        for (int e = 0; e < ne; ++e) { ok &= is_green(g[static_cast<size_t>(k)][e], energies(ne)[e], count == 1 && i == j ? i + 1 : 16 * (i + 1) + j + 1); }
    }
    sym_assert(ok, "the results are those of the columns, in their order");
    sym_reach(count ? "answered" : "nothing asked");
}
// local density of states at a position: all orbitals of the nearest site
SYM_HARNESS(req_ldos) {
    bool const orbitals = sym_pin(sym_bool("orbitals")), reduce = sym_pin(sym_bool("reduce"));
    int const cells = 2, ne = sym_pin(sym_int("energies", 0, 2));
    Log log;
    KPM kpm(Model(lattice(orbitals, false), Primitive(cells)), Stub(&log), config());
    static char const* const names[] = {"", "A", "B", "C", "t", "AB"};
    int const which = sym_pin(sym_int("sublattice", 0, 5));
    float const x = static_cast<float>(sym_pin(sym_int("x", -6, 6)) * 5);
    bool rejected = false;
    ArrayXXdCM r;
    try { r = kpm.calc_ldos(energies(ne), 4, {x, 2, 0}, names[which], reduce); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == (which > 2), "a sublattice is rejected exactly if it is not one of the lattice");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    // squared distances of A at (16 c, 0, 0) and B at (16 c + 1, 2, 4), where c = -1, 0
    auto const& s = *kpm.get_model().system();
    std::vector<int> states;
    for (auto k : log.vectors) { states.push_back(k); }
    int const per_b = orbitals ? 2 : 1;
    bool const is_a = !states.empty() && states[0] < cells;
    sym_assert(static_cast<int>(states.size()) == (is_a ? 1 : per_b), "one calculation for each orbital");
    if (states.empty()) { return; }
    int const site = is_a ? states[0] : cells + (states[0] - cells) / per_b;
    bool ok = is_a || (states[0] - cells) % per_b == 0;
    for (size_t k = 1; k < states.size(); ++k) { ok &= states[k] == states[0] + static_cast<int>(k); }
    sym_assert(ok, "the orbitals are those of one site, in order");
    auto distance = [&](int i) {
        float const dx = s.positions.x[i] - x, dy = s.positions.y[i] - 2, dz = s.positions.z[i];
        return dx * dx + dy * dy + dz * dz;
    };
    bool nearest = which == 0 || (which == 1) == (site < cells);
    for (int i = 0; i < 2 * cells; ++i) {
        if (which == 1 && i >= cells) { continue; }
        if (which == 2 && i < cells) { continue; }
        nearest &= distance(site) <= distance(i);
    }
    sym_assert(nearest, "the site is the nearest one of the sublattice");
    bool const sum = reduce && states.size() > 1;
    ok = r.rows() == ne && r.cols() == (sum ? 1 : static_cast<idx_t>(states.size()));
    sym_assert(ok, "one value for each energy (and orbital)");
    if (!ok) { return; }
    for (int e = 0; e < ne; ++e) {
        if (sum) { ok &= is_density(r(e, 0), energies(ne)[e], 2 * states[0] + 3); }
        else { for (size_t k = 0; k < states.size(); ++k) { ok &= is_density(r(e, static_cast<idx_t>(k)), energies(ne)[e], states[k] + 1); } }
    }
    sym_assert(ok, "the values are those of the states (their sum if asked for)");
    sym_reach("answered");
}
// ... of all sites in a shape
SYM_HARNESS(req_spatial) {
    bool const orbitals = sym_pin(sym_bool("orbitals"));
    int const cells = sym_pin(sym_int("cells", 1, sym_thorough() ? 3 : 2)), n = 2 * cells, ne = 2;
    Log log;
    KPM kpm(Model(lattice(orbitals, false), Primitive(cells)), Stub(&log), config());
    static char const* const names[] = {"", "A", "B", "C"};
    int const which = sym_pin(sym_int("sublattice", 0, 3));
    std::vector<bool> in;
    for (int i = 0; i < n; ++i) { in.push_back(sym_pin(sym_bool("in"))); }
    auto const shape = FreeformShape([&](CartesianArrayConstRef p) -> ArrayX<bool> {
        ArrayX<bool> r(p.size());
        for (idx_t i = 0; i < p.size(); ++i) { r[i] = in[static_cast<size_t>(i)]; }
        return r;
    }, {1, 1, 1});
    bool rejected = false;
    ArrayXXdCM r;
    try { r = kpm.calc_spatial_ldos(energies(ne), 4, shape, names[which]); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == (orbitals || which == 3), "a request is rejected exactly if it has an unknown sublattice or several orbitals");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    std::vector<int> want;
    for (int i = 0; i < n; ++i) { if (in[static_cast<size_t>(i)] && (which == 0 || (which == 1) == (i < cells))) { want.push_back(i); } }
    bool ok = r.rows() == ne && r.cols() == static_cast<idx_t>(want.size());
    sym_assert(ok, "one column for each site in the shape");
    if (!ok) { return; }
    for (size_t k = 0; k < want.size(); ++k) { for (int e = 0; e < ne; ++e) { ok &= is_density(r(e, static_cast<idx_t>(k)), energies(ne)[e], want[k] + 1); } }
    sym_assert(ok, "the columns are those of the sites, in order");
    sym_reach(want.empty() ? "no sites" : "answered");
}
// conductivity: two of the letters x, y, z
static void direction(int length, bool orbitals) {
    Log log;
    KPM kpm(Model(lattice(orbitals, false), Primitive(1)), Stub(&log), config());
    std::string d;
    bool valid = length == 2;
    for (int i = 0; i < length; ++i) {
        int const c = sym_int("letter", 'v', '{');
        d.push_back(static_cast<char>(c));
        valid &= (c >= 'x') & (c <= 'z');
    }
    int const nmu = sym_pin(sym_int("potentials", 1, 2));
    bool rejected = false;
    ArrayXd r;
    try { r = kpm.calc_conductivity(energies(nmu), 4, 300, d, 1, 4); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == !valid, "a direction is rejected exactly if it is not two of the letters x, y, z");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    sym_assert(r.size() == nmu, "one value for each chemical potential");
    // A and B are (1, 2, 4) apart
    auto axis = [&](char c) { return c == 'x' ? 1.0 : c == 'y' ? 2.0 : 4.0; };
    auto largest = [](std::vector<double> const& v) { double m = 0; for (auto x : v) { m = std::max(m, x); } return m; };
    double const top = orbitals ? 2 : 1;                // the largest hopping
    double const l = axis(static_cast<char>(sym_pin(d[0]))), rr = axis(static_cast<char>(sym_pin(d[1])));
    bool ok = std::abs(largest(log.right) - top * rr) < 1e-4;
    double const lo = largest(log.left);
    ok &= orbitals ? (std::abs(lo - 3 * l) < 1e-4 || std::abs(lo - 2 * l) < 1e-4) : std::abs(lo - l) < 1e-4;
    sym_assert(ok, "the first letter is the direction on the left, the second on the right");
    sym_reach("answered");
}
SYM_HARNESS(req_direction) { direction(sym_pin(sym_int("length", 0, 3)), false); }
SYM_HARNESS(req_direction_orbitals) { direction(2, true); }
// moments of given vectors and operator
SYM_HARNESS(req_moments) {
    bool const cx = sym_pin(sym_bool("complex"));
    int const n = 2;
    Log log;
    log.given = true;
    KPM kpm(Model(lattice(false, cx), Primitive(1)), Stub(&log), config());
    int const na = sym_pin(sym_int("alpha", 0, 3)), nb = sym_pin(sym_int("beta", 0, 3)), rows = sym_pin(sym_int("rows", 0, 3)), cols = rows == 0 ? 0 : sym_pin(sym_int("cols", 1, 3));
    double const ia = na ? sym_dy("alpha.im", -1, 1) : 0, ib = nb ? sym_dy("beta.im", -1, 1) : 0, io = rows ? sym_dy("op.im", -1, 1) : 0;
    VectorXcd alpha = VectorXcd::Constant(na, 1.0), beta = VectorXcd::Constant(nb, 1.0);
    if (na) { alpha[na - 1] = cplx(1, ia); }
    if (nb) { beta[nb - 1] = cplx(1, ib); }
    SparseMatrixXcd op(rows, cols);
    if (rows) { op.insert(rows - 1, 0) = cplx(1, io); }
    op.makeCompressed();
    int const count = 1 + 3 * sym_pin(sym_int("moments", 0, 2));
    bool const fits = na == n && (nb == 0 || nb == n) && (rows == 0 || (rows == n && cols == n));
    bool const real = (ia == 0) & (ib == 0) & (io == 0);
    bool rejected = false;
    ArrayXcd r;
    try { r = kpm.moments(count, alpha, beta, op); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == !(fits & (cx | real)), "a request is rejected exactly if a size differs or a real model is given complex numbers");
    if (rejected) { sym_assert(log.calls == 0, "rejected before the calculation"); sym_reach("rejected"); return; }
    sym_assert(r.size() == count, "as many moments as asked for");
    sym_reach("answered");
}
// configurations
SYM_HARNESS(req_config) {
    Log log;
    kpm::Config c;
    c.min_energy = static_cast<float>(sym_dy("min", -2, 2));
    c.max_energy = static_cast<float>(sym_dy("max", -2, 2));
    bool rejected = false;
    Model const model(lattice(false, false), Primitive(1));
    try {
        KPM kpm(model, Stub(&log), c);
        if (c.min_energy < c.max_energy) {
            int const lo = sym_pin(static_cast<int>(c.min_energy)), hi = sym_pin(static_cast<int>(c.max_energy));
            auto const s = kpm.get_core().scaling_factors();
            sym_assert(close(s.a, (hi - lo) * 0.5 * 1.01) && close(s.b, (hi + lo) * 0.5), "the given energy range is the one used");
        }
    } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == (c.min_energy > c.max_energy), "an energy range is rejected exactly if it is reversed");
    double const lambda = sym_dy("lambda", -2, 2);
    bool bad = false;
    try { kpm::lorentz_kernel(lambda); } catch (std::exception const&) { bad = true; }
    sym_assert(bad == (lambda <= 0), "a Lorentz kernel is rejected exactly if its width is not positive");
    sym_reach("configured");
}
// density of states
SYM_HARNESS(req_dos) {
    Log log;
    int const cells = sym_pin(sym_int("cells", 1, 3)), count = sym_pin(sym_int("vectors", 1, 5)), ne = sym_pin(sym_int("energies", 0, 2));
    KPM kpm(Model(lattice(false, sym_pin(sym_bool("complex"))), Primitive(cells)), Stub(&log), config());
    auto const r = kpm.calc_dos(energies(ne), 4, count);
    sym_assert(r.size() == ne, "one value for each energy");
    sym_assert(static_cast<int>(log.vectors.size()) == count, "as many random vectors as asked for");
    bool ok = true;
    for (int e = 0; e < ne; ++e) { ok &= is_density(r[e], energies(ne)[e], (count + 1) / 2.0); }
    sym_assert(ok, "the average of the vectors");
    sym_reach("answered");
}
// another model, which may not build
SYM_HARNESS(req_model) {
    Log log;
    int const cells = sym_pin(sym_int("cells", 1, 2)), other = sym_pin(sym_int("other", 1, 3));
    auto const c = config();
    KPM kpm(Model(lattice(false, false), Primitive(cells)), Stub(&log), c);
    bool const first = sym_pin(sym_bool("calculated"));
    if (first) { kpm.calc_greens(0, 0, energies(1), 4); }
    bool const fails = sym_bool("fails");
    Model next(lattice(sym_pin(sym_bool("orbitals")), false), Primitive(other));
    next.add(OnsiteModifier([fails](ComplexArrayRef, CartesianArrayConstRef, string_view) { if (fails) { throw std::runtime_error("fails"); } }));
    bool rejected = false;
    try { kpm.set_model(next); } catch (std::exception const&) { rejected = true; }
    sym_assert(rejected == fails, "a model is rejected exactly if it doesn't build");
    int const n = static_cast<int>(rejected ? 2 * cells : next.hamiltonian().rows());
    int const i = sym_int("state", 0, 12);
    bool out = false;
    ArrayXcd g;
    log.vectors.clear();
    try { g = kpm.calc_greens(i, i, energies(1), 4); } catch (std::exception const&) { out = true; }
    sym_assert(out == (i >= n), "indices are those of the model in use");
    if (out) { sym_reach("rejected"); return; }
    sym_assert(log.vectors.size() == 1 && log.vectors[0] == i && g.size() == 1, "calculated for the model in use");
    sym_reach("answered");
}
// bounds which the library finds itself: those of the model in use, whatever came before
SYM_HARNESS(req_automatic) {
    Log log;
    auto c = config();
    c.min_energy = c.max_energy = static_cast<float>(sym_pin(sym_int("given", -1, 1)));
    int const cells = sym_pin(sym_int("cells", 1, 2)), other = sym_pin(sym_int("other", 1, 2));
    bool const cx = sym_pin(sym_bool("complex")), orbitals = sym_pin(sym_bool("orbitals"));
    KPM kpm(Model(lattice(false, false), Primitive(cells)), Stub(&log), c);
    int const asked = sym_pin(sym_int("asked", 0, 2));
    if (asked == 1) { kpm.get_core().scaling_factors(); }
    if (asked == 2) { kpm.calc_greens(0, 0, energies(1), 4); }
    bool const change = sym_pin(sym_bool("change"));
    Model const next(lattice(orbitals, cx), Primitive(other));
    if (change) { kpm.set_model(next); }
    Model const& used = change ? next : kpm.get_model();
    int const n = static_cast<int>(used.hamiltonian().rows());
    auto const dense = to_dense(used.hamiltonian());
    MatrixXcd m(n, n);
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { m(i, j) = dense(i, j); } }
    Eigen::SelfAdjointEigenSolver<MatrixXcd> solver(m);
    auto const s = kpm.get_core().scaling_factors();
    double const lo = solver.eigenvalues()[0], hi = solver.eigenvalues()[n - 1];
    sym_assert(std::abs(s.a - 0.505 * (hi - lo)) < 0.002 * (hi - lo) && std::abs(s.b - 0.5 * (hi + lo)) < 0.002 * (hi - lo), "the scale is that of the spectrum of the model in use");
    sym_assert(lo - s.b > -s.a && hi - s.b < s.a, "the spectrum lies inside of the scaled interval");
    log.vectors.clear();
    ArrayXd const e = ArrayXd::Constant(1, s.b + 0.25 * s.a);
    auto const g = kpm.calc_greens(0, 0, e, 4);
    sym_assert(g.size() == 1 && close(g[0], cplx(0, -2) / s.a / std::sqrt(1 - 0.0625)), "the values are on that scale");
    sym_reach("answered");
}
