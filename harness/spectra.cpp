#include "common.hpp"
#include "KPM.hpp"
#include "kpm/reconstruct.hpp"
using namespace hs;
using namespace cpb;
using cd = std::complex<double>;

// What a calculation returns is a linear function of the moments (or of the kernel's coefficients) which are
// symbolic here; the energies are given numbers. Oracles use Chebyshev recurrences in plain double arithmetic.

template<class T> struct Sym;
template<> struct Sym<float> { static float any(char const* n) { return static_cast<float>(sym_dy(n, -64, 64)); } };
template<> struct Sym<double> { static double any(char const* n) { return sym_dy(n, -64, 64); } };
template<class R> struct Sym<std::complex<R>> { static std::complex<R> any(char const* n) { auto const re = Sym<R>::any(n); return {re, Sym<R>::any(n)}; } };

static double re(double x) { return x; }
static double im(double) { return 0; }
static double re(cd x) { return x.real(); }
static double im(cd x) { return x.imag(); }
static double re(std::complex<float> x) { return x.real(); }
static double im(std::complex<float> x) { return x.imag(); }

template<class T> static constexpr double tol(double of) { return (std::is_same<num::get_real_t<T>, float>::value ? 1e-4 : 1e-6) * of; }    // the library's constants are of single precision

// the numbers T_n(x) and U_n(x)
static std::vector<double> first_kind(double x, int N) { std::vector<double> t = {1, x}; for (int n = 2; n < N; ++n) { t.push_back(2 * x * t[n - 1] - t[n - 2]); } return t; }
static std::vector<double> second_kind(double x, int N) { std::vector<double> u = {1, 2 * x}; for (int n = 2; n < N; ++n) { u.push_back(2 * x * u[n - 1] - u[n - 2]); } return u; }
// exp(-i n acos x) = T_n(x) - i sqrt(1 - x^2) U_{n-1}(x)
static cd turn(std::vector<double> const& t, std::vector<double> const& u, double x, int n) {
    return {t[n], n ? -std::sqrt(1 - x * x) * u[n - 1] : 0.0};
}

struct Axis { ArrayXd energy; kpm::Scale<> scale; double x(int i) const { return (energy[i] - scale.b) / scale.a; } };
static Axis axis() {
    Axis a;
    switch (sym_pin(sym_int("axis", 0, 2))) {
    case 0: a.scale.a = 1; a.scale.b = 0; break;
    case 1: a.scale.a = 4; a.scale.b = 0.5; break;
    case 2: a.scale.a = 0.3; a.scale.b = -2; break;
    }
    static double const at[] = {-0.95, -0.5, 0, 0.3, 0.8125};
    int const from = sym_pin(sym_int("first", 0, 4)), many = sym_pin(sym_int("energies", 0, 5 - from));
    a.energy.resize(many);
    for (int i = 0; i < many; ++i) { a.energy[i] = at[from + i] * a.scale.a + a.scale.b; }
    return a;
}
static double big(Axis const& a, int N) { return 64.0 * N * 4 / a.scale.a; }

template<class T> static void density() {
    auto const a = axis();
    int const N = sym_pin(sym_int("moments", 2, 9));
    ArrayX<T> mu(N);
    for (int n = 0; n < N; ++n) { mu[n] = Sym<T>::any("moment"); }
    auto const result = kpm::SpectralDensity{a.energy, a.scale}(mu);
    sym_assert(result.rows() == a.energy.size() && result.cols() == 1, "one value for each energy");
    for (int i = 0; i < a.energy.size(); ++i) {
        auto const x = a.x(i); auto const t = first_kind(x, N);
        double sum = 0;
        for (int n = 0; n < N; ++n) { sum += re(cd(re(mu[n]), 0)) * t[n]; }
        sym_close(result(i, 0), 2 / (M_PI * a.scale.a * std::sqrt(1 - x * x)) * sum, tol<T>(big(a, N)), "density = 2/(pi a sqrt(1 - x^2)) sum mu_n T_n(x)");
    }
    sym_reach("density");
}
template<class T> static void density_batch() {
    auto const a = axis();
    int const N = sym_pin(sym_int("moments", 2, 6)), many = sym_pin(sym_int("columns", 1, 3));
    ArrayXX<T> mu(N, many);
    for (int c = 0; c < many; ++c) { for (int n = 0; n < N; ++n) { mu(n, c) = Sym<T>::any("moment"); } }
    auto const result = kpm::SpectralDensity{a.energy, a.scale}(mu);
    sym_assert(result.rows() == a.energy.size() && result.cols() == many, "a column for each vector");
    for (int i = 0; i < a.energy.size(); ++i) {
        auto const x = a.x(i); auto const t = first_kind(x, N);
        for (int c = 0; c < many; ++c) {
            double sum = 0;
            for (int n = 0; n < N; ++n) { sum += re(mu(n, c)) * t[n]; }
            sym_close(result(i, c), 2 / (M_PI * a.scale.a * std::sqrt(1 - x * x)) * sum, tol<T>(big(a, N)), "every column is the density of its moments");
        }
    }
    sym_reach("density_batch");
}
template<class T> static void same_greens(ArrayXcd const& got, ArrayX<T> const& mu, Axis const& a) {
    int const N = static_cast<int>(mu.size());
    sym_assert(got.size() == a.energy.size(), "one value for each energy");
    for (int i = 0; i < a.energy.size(); ++i) {
        auto const x = a.x(i); auto const t = first_kind(x, N), u = second_kind(x, N);
        double sr = 0, si = 0;
        for (int n = 0; n < N; ++n) {
            auto const e = turn(t, u, x, n);
            sr += re(mu[n]) * e.real() - im(mu[n]) * e.imag();
            si += re(mu[n]) * e.imag() + im(mu[n]) * e.real();
        }
        double const k = 2 / (a.scale.a * std::sqrt(1 - x * x));     // -2i k (sr + i si)
        sym_close(got[i].real(), k * si, tol<T>(big(a, N)), "real part of -2i/(a sqrt(1 - x^2)) sum mu_n exp(-i n acos x)");
        sym_close(got[i].imag(), -k * sr, tol<T>(big(a, N)), "imaginary part of -2i/(a sqrt(1 - x^2)) sum mu_n exp(-i n acos x)");
    }
}
template<class T> static void greens() {
    auto const a = axis();
    int const N = sym_pin(sym_int("moments", 2, 7));
    ArrayX<T> mu(N);
    for (int n = 0; n < N; ++n) { mu[n] = Sym<T>::any("moment"); }
    same_greens(kpm::GreensFunction{a.energy, a.scale}(mu), mu, a);
    sym_reach("greens");
}
template<class T> static void greens_vector() {
    auto const a = axis();
    int const N = sym_pin(sym_int("moments", 2, 4)), many = sym_pin(sym_int("elements", 0, 3));
    std::vector<ArrayX<T>> mu(static_cast<size_t>(many), ArrayX<T>(N));
    for (auto& m : mu) { for (int n = 0; n < N; ++n) { m[n] = Sym<T>::any("moment"); } }
    auto const result = kpm::GreensFunction{a.energy, a.scale}(mu);
    sym_assert(result.size() == mu.size(), "a function for each element");
    for (size_t k = 0; k < mu.size(); ++k) { same_greens(result[k], mu[k], a); }
    sym_reach("greens_vector");
}
// sigma = 4/a^2 int fd(x) / (1 - x^2)^2 sum mu_mn Gamma_mn(x) dx by the trapezoidal rule over the samples, with
// Gamma_mn = (x - i n sqrt(1 - x^2)) exp(i n acos x) T_m(x) + (x + i m sqrt(1 - x^2)) exp(-i m acos x) T_n(x)
// and mu_mn the conjugate of <r| v T_m v T_n |r>
static cd gamma(double x, int N, int m, int n) {
    auto const t = first_kind(x, N), u = second_kind(x, N);
    double const q = std::sqrt(1 - x * x);
    return cd(x, -n * q) * std::conj(turn(t, u, x, n)) * t[m] + cd(x, m * q) * turn(t, u, x, m) * t[n];
}
static double fermi(double d, double temperature) {
    return temperature == 0 ? (std::abs(d) < 1e-9 ? 0.5 : d < 0) : 1 / (1 + std::exp(d / (8.6173303e-5 * temperature)));
}
template<class T> static void kubo() {
    kpm::Scale<> s;
    if (sym_pin(sym_bool("shifted"))) { s.a = 4; s.b = 0.5; } else { s.a = 2; s.b = 0; }
    int const points = sym_pin(sym_int("points", 2, 5)), N = sym_pin(sym_int("moments", 2, 4));
    ArrayXd const samples = ArrayXd::LinSpaced(points, -0.75 * s.a + s.b, 0.75 * s.a + s.b);
    ArrayXd mus(3);
    mus << -0.25 * s.a + s.b, s.b, 0.75 * s.a + s.b;        // some of them are samples
    double const temperature = std::vector<double>{0, 300, 20000}[static_cast<size_t>(sym_pin(sym_int("temperature", 0, 2)))];
    MatrixX<T> mu(N, N);
    for (int n = 0; n < N; ++n) { for (int m = 0; m < N; ++m) { mu(n, m) = Sym<T>::any("moment"); } }
    auto const got = kpm::KuboBastin{mus, samples, temperature, s}(mu);
    sym_assert(got.size() == 3, "one value for each chemical potential");
    for (int c = 0; c < 3; ++c) {
        double sr = 0, si = 0;
        for (int k = 0; k < points; ++k) {
            double const x = (samples[k] - s.b) / s.a, d = samples[k] - mus[c];
            double const w = fermi(d, temperature) * (k == 0 || k + 1 == points ? 0.5 : 1) * 1.5 / (points - 1) / ((1 - x * x) * (1 - x * x));
            for (int n = 0; n < N; ++n) { for (int m = 0; m < N; ++m) {
                cd const g = gamma(x, N, m, n);
                sr += w * (re(mu(m, n)) * g.real() - im(mu(m, n)) * g.imag());
                si += w * (re(mu(m, n)) * g.imag() + im(mu(m, n)) * g.real());
            } }
        }
        double const k = 4 / (s.a * s.a), of = 64 * N * N * 40;
        sym_close(got[c].real(), k * sr, tol<T>(of), "real part of the Kubo-Bastin integral");
        sym_close(got[c].imag(), k * si, tol<T>(of), "imaginary part of the Kubo-Bastin integral");
    }
    sym_reach("kubo");
}

// The kernel multiplies each moment by the coefficient of its order
static kpm::Kernel custom(std::vector<double> const& g, idx_t N) {
    return {[=](idx_t n) -> ArrayXd {
                sym_assert(n == N, "the coefficients asked for are as many as the moments");
                ArrayXd a(n);
                for (idx_t i = 0; i < n; ++i) { a[i] = g[static_cast<size_t>(i)]; }
                return a;
            },
            [=](double) { return N; }};
}
template<class T> static void apply() {
    int const N = sym_pin(sym_int("moments", 1, 4)), shape = sym_pin(sym_int("container", 0, 3)), many = shape == 0 ? 1 : shape == 3 ? N : sym_pin(sym_int("columns", 0, 2));
    std::vector<double> g;
    for (int n = 0; n < N; ++n) { g.push_back(sym_dy("coefficient", -16, 16)); }
    auto const kernel = custom(g, N);
    ArrayXX<T> before(N, many);
    for (int c = 0; c < many; ++c) { for (int n = 0; n < N; ++n) { before(n, c) = Sym<T>::any("moment"); } }
    ArrayXX<T> after(N, many);
    switch (shape) {
    case 0: { ArrayX<T> a = before.col(0); kernel(a); after.col(0) = a; break; }
    case 1: {
        std::vector<ArrayX<T>> v;
        for (int c = 0; c < many; ++c) { v.push_back(before.col(c)); }
        kernel(v);
        sym_assert(static_cast<int>(v.size()) == many, "as many moments as before");
        for (int c = 0; c < many; ++c) { after.col(c) = v[static_cast<size_t>(c)]; }
        break;
    }
    case 2: after = before; kernel(after); break;
    case 3: { MatrixX<T> m = before.matrix(); kernel(m); after = m.array(); break; }
    }
    sym_assert(after.rows() == N && after.cols() == many, "as many moments as before");
    for (int c = 0; c < many; ++c) { for (int n = 0; n < N; ++n) {
        using R = num::get_real_t<T>;
        auto f = static_cast<R>(g[static_cast<size_t>(n)]);
        if (shape == 3) { f *= static_cast<R>(g[static_cast<size_t>(c)]); }
        sym_close(re(after(n, c)), double(re(before(n, c))) * double(f), tol<T>(64 * 16), "every moment is multiplied by the coefficient of its order");
        sym_close(im(after(n, c)), double(im(before(n, c))) * double(f), tol<T>(64 * 16), "every moment is multiplied by the coefficient of its order");
    } }
    sym_reach("apply");
}
// The library's own kernels on any moments
static void kernels() {
    int const N = sym_pin(sym_int("moments", 2, 12)), which = sym_pin(sym_int("kernel", 0, 3));
    auto const kernel = which == 0 ? kpm::jackson_kernel() : which == 1 ? kpm::lorentz_kernel() : which == 2 ? kpm::lorentz_kernel(1.5) : kpm::dirichlet_kernel();
    ArrayXd a(N); ArrayXd before(N);
    for (int n = 0; n < N; ++n) { before[n] = Sym<double>::any("moment"); }
    a = before;
    kernel(a);
    for (int n = 0; n < N; ++n) {
        double const l = which == 1 ? 4.0 : 1.5, q = M_PI / (N + 1);
        double const g = which == 0 ? ((N + 1 - n) * std::cos(q * n) + std::sin(q * n) * std::cos(q) / std::sin(q)) / (N + 1)
                       : which == 3 ? 1.0 : (std::exp(l * (1 - double(n) / N)) - std::exp(-l * (1 - double(n) / N))) / (std::exp(l) - std::exp(-l));
        sym_close(a[n], g * before[n], 1e-6 * 64, "the kernel's formula");
    }
    sym_reach("kernels");
}

// A whole calculation: the coefficients of the kernel are symbolic, so each order's contribution is told apart
template<class T> struct Small {
    int n; MatrixX<cd> h; kpm::Scale<> scale; float lo, hi;
    SparseMatrixX<T> m;
    explicit Small(int which) {
        n = which == 2 ? 1 : which == 1 ? 4 : 3;
        h = MatrixX<cd>::Zero(n, n);
        auto const set = [&](int i, int j, cd v) { h(i, j) = v; h(j, i) = std::conj(v); };
        bool const c = num::is_complex<T>();
        if (which == 0) { set(0, 0, 1); set(0, 1, c ? cd(0.5, -1) : cd(-1)); set(1, 2, c ? cd(0, 0.75) : cd(0.75)); set(2, 2, -0.5); }
        if (which == 1) { set(0, 1, 1); set(1, 2, -0.5); set(2, 3, c ? cd(0, 1) : cd(1.5)); set(0, 3, 0.25); }
        if (which == 2) { set(0, 0, 0.5); }
        if (which == 3) { set(0, 2, c ? cd(0.25, 1) : cd(1)); set(1, 1, 2); }       // in two parts
        lo = -3; hi = which == 1 ? 3.5f : 3.0f;
        scale = kpm::Scale<>(lo, hi);
        m.resize(n, n);
        std::vector<Eigen::Triplet<T, int>> t;
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (h(i, j) != cd(0)) { t.emplace_back(i, j, value(h(i, j), T{})); } } }
        m.setFromTriplets(t.begin(), t.end());
        m.makeCompressed();
    }
    static float value(cd v, float) { return float(v.real()); }
    static double value(cd v, double) { return v.real(); }
    static cd value(cd v, cd) { return v; }
    static std::complex<float> value(cd v, std::complex<float>) { return std::complex<float>(v); }
    // <l| T_k(x) |r>, the first one halved
    std::vector<cd> moments(VectorX<cd> const& l, VectorX<cd> const& r, int N) const {
        MatrixX<cd> const x = (h - scale.b * MatrixX<cd>::Identity(n, n)) / scale.a;
        VectorX<cd> t0 = r, t1 = x * r;
        std::vector<cd> mu = {l.dot(t0) * 0.5, l.dot(t1)};
        for (int k = 2; k < N; ++k) { VectorX<cd> const t2 = 2 * (x * t1) - t0; mu.push_back(l.dot(t2)); t0 = t1; t1 = t2; }
        return mu;
    }
    VectorX<cd> unit(int i) const { VectorX<cd> v = VectorX<cd>::Zero(n); v[i] = 1; return v; }
};
template<class T> struct Calc {
    Small<T> sys; int N; std::vector<double> g; ArrayXd energy; kpm::Config config; kpm::Core core;
    Calc() : sys(sym_pin(sym_int("matrix", 0, 3))), N(sym_pin(sym_bool("more moments")) ? 10 : 6), core(make()) {}
    kpm::Core make() {
        for (int n = 0; n < N; ++n) { g.push_back(sym_dy("coefficient", -64, 64)); }
        energy.resize(2);
        energy << -1.25, 0.75;
        config.min_energy = sys.lo; config.max_energy = sys.hi;
        config.kernel = custom(g, N);
        config.matrix_format = sym_pin(sym_bool("ell")) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
        config.algorithm.interleaved = sym_pin(sym_bool("interleaved"));
        config.algorithm.optimal_size = sym_pin(sym_bool("optimal size"));
        return kpm::Core(Hamiltonian(std::make_shared<SparseMatrixX<T>>(sys.m)), kpm::DefaultCompute(1), config);
    }
    void density(double got, int e, int i) const {
        auto const mu = sys.moments(sys.unit(i), sys.unit(i), N);
        double const x = (energy[e] - sys.scale.b) / sys.scale.a; auto const t = first_kind(x, N);
        double sum = 0;
        for (int n = 0; n < N; ++n) { sum += g[static_cast<size_t>(n)] * (mu[static_cast<size_t>(n)].real() * t[n]); }
        sym_close(got, 2 / (M_PI * sys.scale.a * std::sqrt(1 - x * x)) * sum, tol<T>(64 * N * 4), "the local density of states of its state");
    }
    void green(cd got, int e, int row, int col) const {
        // <row| G |col>: the moments start from the row and are collected at the column
        auto const mu = sys.moments(sys.unit(col), sys.unit(row), N);
        double const x = (energy[e] - sys.scale.b) / sys.scale.a; auto const t = first_kind(x, N), u = second_kind(x, N);
        double sr = 0, si = 0;
        for (int n = 0; n < N; ++n) {
            cd const w = cd(0, -2) * mu[static_cast<size_t>(n)] * turn(t, u, x, n) / (sys.scale.a * std::sqrt(1 - x * x));
            sr += g[static_cast<size_t>(n)] * w.real(); si += g[static_cast<size_t>(n)] * w.imag();
        }
        sym_close(got.real(), sr, tol<T>(64 * N * 4), "real part of the Green's function");
        sym_close(got.imag(), si, tol<T>(64 * N * 4), "imaginary part of the Green's function");
    }
};
template<class T> static void whole_ldos() {
    Calc<T> c;
    int const first = sym_pin(sym_int("state", 0, c.sys.n - 1)), many = sym_pin(sym_int("states", 1, c.sys.n - first));
    std::vector<idx_t> idx;
    for (int k = 0; k < many; ++k) { idx.push_back(first + k); }
    auto const result = c.core.ldos(idx, c.energy, 0.1);
    sym_assert(result.rows() == 2 && result.cols() == many, "a column for each state");
    for (int k = 0; k < many; ++k) { for (int e = 0; e < 2; ++e) { c.density(result(e, k), e, first + k); } }
    sym_reach("whole_ldos");
}
template<class T> static void whole_greens() {
    Calc<T> c;
    int const row = sym_pin(sym_int("row", 0, c.sys.n - 1)), col = sym_pin(sym_int("col", 0, c.sys.n - 1));
    if (sym_pin(sym_bool("several"))) {
        std::vector<idx_t> cols = {col};
        for (int j = 0; j < c.sys.n; ++j) { if (j != col) { cols.push_back(j); } }
        auto const result = c.core.greens_vector(row, cols, c.energy, 0.1);
        sym_assert(result.size() == cols.size(), "a function for each column");
        for (size_t k = 0; k < cols.size(); ++k) { for (int e = 0; e < 2; ++e) { c.green(result[k][e], e, row, static_cast<int>(cols[k])); } }
    } else {
        auto const result = c.core.greens(row, col, c.energy, 0.1);
        for (int e = 0; e < 2; ++e) { c.green(result[e], e, row, col); }
    }
    sym_reach("whole_greens");
}

// The conductivity averages over random vectors: the same ones are drawn again for the oracle
template<class T> static void whole_conductivity() {
    Small<T> const sys(sym_pin(sym_int("matrix", 0, 3)));
    int const N = 6, some = sym_pin(sym_int("order", 0, N - 1)), many = sym_pin(sym_int("vectors", 1, 2)), points = 3;
    std::vector<double> g;
    for (int n = 0; n < N; ++n) { g.push_back(n == some ? sym_dy("coefficient", -64, 64) : 1.0 + 0.5 * n); }
    kpm::Config config;
    config.min_energy = sys.lo; config.max_energy = sys.hi;
    config.kernel = custom(g, N);
    config.matrix_format = sym_pin(sym_bool("ell")) ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    config.algorithm.interleaved = sym_pin(sym_bool("interleaved"));
    config.algorithm.optimal_size = sym_pin(sym_bool("optimal size"));
    auto const hamiltonian = Hamiltonian(std::make_shared<SparseMatrixX<T>>(sys.m));
    ArrayXf left(sys.n), right(sys.n);
    for (int i = 0; i < sys.n; ++i) { left[i] = static_cast<float>(i * i) - 1; right[i] = 2 - 0.5f * static_cast<float>(i); }
    ArrayXd mus(2);
    mus << -0.5, 1.0;
    double const temperature = 3000;
    kpm::Core core(hamiltonian, kpm::DefaultCompute(1), config);
    auto const got = core.conductivity(left, right, mus, 0.1, temperature, many, points);
    sym_assert(got.size() == 2, "one value for each chemical potential");

    kpm::OptimizedHamiltonian oh(hamiltonian, config.matrix_format, config.algorithm.reorder());
    oh.optimize_for({0, 0}, sys.scale);
    auto const starter = kpm::random_starter(oh);
    MatrixX<cd> const x = (sys.h - sys.scale.b * MatrixX<cd>::Identity(sys.n, sys.n)) / sys.scale.a;
    MatrixX<cd> vl = sys.h, vr = sys.h;
    for (int i = 0; i < sys.n; ++i) { for (int j = 0; j < sys.n; ++j) { vl(i, j) *= left[i] - left[j]; vr(i, j) *= right[i] - right[j]; } }
    std::vector<MatrixX<cd>> t = {MatrixX<cd>::Identity(sys.n, sys.n), x};
    for (int n = 2; n < N; ++n) { t.push_back(2 * x * t[static_cast<size_t>(n - 1)] - t[static_cast<size_t>(n - 2)]); }
    ArrayXi order(sys.n);
    for (int i = 0; i < sys.n; ++i) { order[i] = i; }
    oh.reorder(order);
    MatrixX<cd> mu = MatrixX<cd>::Zero(N, N);
    for (int j = 0; j < many; ++j) {
        VectorX<T> const drawn = kpm::make_r0(starter, var::tag<VectorX<T>>{}, 1);
        VectorX<cd> r(sys.n);
        for (int i = 0; i < sys.n; ++i) { r[order[i]] = cd(re(drawn[i]), im(drawn[i])); }
        for (int m = 0; m < N; ++m) { for (int n = 0; n < N; ++n) {
            cd const v = VectorX<cd>(vr * t[static_cast<size_t>(n)] * r).dot(t[static_cast<size_t>(m)] * vl * r);
            mu(m, n) += v * ((m ? 1 : 0.5) * (n ? 1 : 0.5) / many);
        } }
    }
    ArrayXd const samples = ArrayXd::LinSpaced(points, sys.lo, sys.hi);
    for (int c = 0; c < 2; ++c) {
        double sr = 0, of = 1;
        for (int m = 0; m < N; ++m) { for (int n = 0; n < N; ++n) {
            cd w = 0;
            for (int k = 0; k < points; ++k) {
                double const e = (samples[k] - sys.scale.b) / sys.scale.a, d = samples[k] - mus[c];
                w += fermi(d, temperature) * (k == 0 || k + 1 == points ? 0.5 : 1.0) * (sys.hi - sys.lo) / sys.scale.a / (points - 1) / ((1 - e * e) * (1 - e * e)) * gamma(e, N, m, n);
            }
            w *= mu(m, n) * 4.0 / (sys.scale.a * sys.scale.a);
            of += std::abs(w) * (m == some ? 64 : g[static_cast<size_t>(m)]) * (n == some ? 64 : g[static_cast<size_t>(n)]);
            sr += g[static_cast<size_t>(m)] * g[static_cast<size_t>(n)] * w.real();
        } }
        sym_close(got[c].real(), sr, 1e-6 * of, "real part of the conductivity");
    }
    sym_reach("whole_conductivity");
}
// The density of states is the average over random vectors
template<class T> static void whole_dos() {
    Calc<T> c;
    int const many = sym_pin(sym_int("vectors", 1, 3));
    auto const got = c.core.dos(c.energy, 0.1, many);
    sym_assert(got.size() == 2, "one value for each energy");
    kpm::OptimizedHamiltonian oh(Hamiltonian(std::make_shared<SparseMatrixX<T>>(c.sys.m)), c.config.matrix_format, c.config.algorithm.reorder());
    oh.optimize_for({0, 0}, c.sys.scale);
    auto const starter = kpm::random_starter(oh);
    ArrayXi order(c.sys.n);
    for (int i = 0; i < c.sys.n; ++i) { order[i] = i; }
    oh.reorder(order);
    std::vector<double> mu(static_cast<size_t>(c.N), 0.0);
    for (int j = 0; j < many; ++j) {
        VectorX<T> const drawn = kpm::make_r0(starter, var::tag<VectorX<T>>{}, 1);
        VectorX<cd> r(c.sys.n);
        for (int i = 0; i < c.sys.n; ++i) { r[order[i]] = cd(re(drawn[i]), im(drawn[i])); }
        auto const m = c.sys.moments(r, r, c.N);
        for (int n = 0; n < c.N; ++n) { mu[static_cast<size_t>(n)] += m[static_cast<size_t>(n)].real() / many; }
    }
    for (int e = 0; e < 2; ++e) {
        double const x = (c.energy[e] - c.sys.scale.b) / c.sys.scale.a; auto const t = first_kind(x, c.N);
        double sum = 0;
        for (int n = 0; n < c.N; ++n) { sum += c.g[static_cast<size_t>(n)] * (mu[static_cast<size_t>(n)] * t[n]); }
        sym_close(got[e], 2 / (M_PI * c.sys.scale.a * std::sqrt(1 - x * x)) * sum, tol<T>(64 * c.N * 16), "the density of states averaged over the vectors");
    }
    sym_reach("whole_dos");
}
// The broadening decides the number of moments
static void broadening() {
    int const which = sym_pin(sym_int("kernel", 0, 3));
    auto const kernel = which == 0 ? kpm::jackson_kernel() : which == 1 ? kpm::lorentz_kernel() : which == 2 ? kpm::lorentz_kernel(1.5) : kpm::dirichlet_kernel();
    int const k = sym_pin(sym_int("broadening", 1, 20)) * 3;
    idx_t const n = kernel.required_num_moments(k / 32.0);
    double const l = which == 1 ? 4.0 : which == 2 ? 1.5 : M_PI;
    // the broadening l / n is at most the one asked for; moments come in fours after the first two
    sym_assert((n - 2) % 4 == 0, "a number of moments all algorithms can compute");
    sym_assert((static_cast<double>(n) * k >= l * 32) & (static_cast<double>(n - 5) * k <= l * 32), "enough moments for the broadening and no more");
    sym_reach("broadening");
}
static void rounding() {
    int const n = sym_int("n", -1000000, 1000000);
    idx_t const r = kpm::round_num_moments(n);
    sym_assert((r >= 2) & (r >= n) & ((r - 2) % 4 == 0) & ((r == 2) | (r < static_cast<idx_t>(n) + 4)), "the next number of moments which all algorithms can compute");
    sym_reach("rounding");
}
SYM_HARNESS(rounding_moments) { rounding(); }
SYM_HARNESS(broadening_moments) { broadening(); }
SYM_HARNESS(dos_double) { whole_dos<double>(); }
SYM_HARNESS(dos_complex) { whole_dos<cd>(); }
SYM_HARNESS(dos_float) { whole_dos<float>(); }
SYM_HARNESS(conductivity_double) { whole_conductivity<double>(); }
SYM_HARNESS(conductivity_complex) { whole_conductivity<cd>(); }

SYM_HARNESS(density_float) { density<float>(); }
SYM_HARNESS(density_double) { density<double>(); }
SYM_HARNESS(density_cfloat) { density<std::complex<float>>(); }
SYM_HARNESS(density_complex) { density<cd>(); }
SYM_HARNESS(columns_float) { density_batch<float>(); }
SYM_HARNESS(columns_complex) { density_batch<cd>(); }
SYM_HARNESS(greens_float) { greens<float>(); }
SYM_HARNESS(greens_double) { greens<double>(); }
SYM_HARNESS(greens_cfloat) { greens<std::complex<float>>(); }
SYM_HARNESS(greens_complex) { greens<cd>(); }
SYM_HARNESS(greens_several) { greens_vector<cd>(); }
SYM_HARNESS(kubo_double) { kubo<double>(); }
SYM_HARNESS(kubo_float) { kubo<float>(); }
SYM_HARNESS(kubo_complex) { kubo<cd>(); }
SYM_HARNESS(kubo_cfloat) { kubo<std::complex<float>>(); }
SYM_HARNESS(apply_float) { apply<float>(); }
SYM_HARNESS(apply_double) { apply<double>(); }
SYM_HARNESS(apply_cfloat) { apply<std::complex<float>>(); }
SYM_HARNESS(apply_complex) { apply<cd>(); }
SYM_HARNESS(own_kernels) { kernels(); }
SYM_HARNESS(ldos_double) { whole_ldos<double>(); }
SYM_HARNESS(ldos_complex) { whole_ldos<cd>(); }
SYM_HARNESS(ldos_float) { whole_ldos<float>(); }
SYM_HARNESS(ldos_cfloat) { whole_ldos<std::complex<float>>(); }
SYM_HARNESS(element_double) { whole_greens<double>(); }
SYM_HARNESS(element_complex) { whole_greens<cd>(); }
SYM_HARNESS(element_float) { whole_greens<float>(); }
SYM_HARNESS(element_cfloat) { whole_greens<std::complex<float>>(); }
// The scale of an energy range: all of it lies strictly inside of (-1, 1), where the expansion converges
SYM_HARNESS(scale_range) {
    double lo, hi;
    int const reach = sym_pin(sym_int("reach", 0, sym_thorough() ? 40 : 10)) * 5;
    if (sym_pin(sym_bool("about zero"))) {    // a middle next to zero may be rounded to zero
        double const width = reach + 0.5, middle = width * sym_pin(sym_int("near", -8, 8)) / 65536;
        lo = middle - 0.5 * width; hi = middle + 0.5 * width;
    } else {
        double const far = sym_dy("far", reach + 1, 1000), close = sym_dy("close", -reach, reach);
        bool const negative = sym_pin(sym_bool("negative"));
        lo = negative ? -far : close; hi = negative ? -close : far;
    }
    auto const s = kpm::Bounds(lo, hi).scaling_factors();
    double const middle = 0.5 * (lo + hi);
    sym_close(s.a, 0.505 * (hi - lo), 1e-5 * (reach + 1), "a = half of the width, and 1 % more");
    sym_close(s.b, middle, 1e-4 * (reach + 0.5), "b = middle of the range");
    sym_assert((lo - s.b > -s.a) & (hi - s.b < s.a), "the range lies inside of the scaled interval");
    kpm::Scale<float> const f = s;
    sym_close(f.a, s.a, 1e-4, "in single precision");
    sym_close(f.b, s.b, 1e-4, "in single precision");
    ArrayXd e(3);
    e << lo, middle, hi;
    auto const l = kpm::Bounds(lo, hi).linspaced(3);
    sym_assert(l.size() == 3, "as many energies as asked for");
    for (int i = 0; i < 3; ++i) { sym_close(l[i], e[i], 1e-9, "evenly spaced"); }
    sym_reach("scaled");
}
// Moments between given vectors: damped as well, however many of them are asked for
template<class T> static void whole_moments() {
    Calc<T> c;
    int const n = c.sys.n, count = c.N - sym_pin(sym_int("fewer", 0, 3)), kind = sym_pin(sym_int("kind", 0, 3));
    bool const cx = num::is_complex<T>();
    VectorXcd alpha(n), beta(n);
    for (int i = 0; i < n; ++i) { alpha[i] = cx ? cd(1 - i, 0.5 * i) : cd(1 - i); beta[i] = cx ? cd(0.25 * i, 1) : cd(0.5 + i); }
    MatrixX<cd> op = MatrixX<cd>::Identity(n, n);
    SparseMatrixXcd sparse;
    if (kind >= 2) {
        op.setZero();
        for (int i = 0; i < n; ++i) { op(i, (i + 1) % n) = cx ? cd(1, i) : cd(2 - i); op(i, i) += 0.5; }
        sparse = SparseMatrixXcd(n, n);
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (op(i, j) != cd(0)) { sparse.insert(i, j) = op(i, j); } } }
        sparse.makeCompressed();
    }
    bool const other = kind == 1 || kind == 3;
    auto const got = c.core.moments(count, alpha, other ? beta : VectorXcd(), sparse);
    sym_assert(got.size() == count, "as many moments as asked for");
    VectorX<cd> const left = op.adjoint() * (other ? beta : alpha);
    auto const mu = c.sys.moments(left, alpha, c.N);
    for (int k = 0; k < count; ++k) {
        sym_close(got[k].real(), c.g[static_cast<size_t>(k)] * mu[static_cast<size_t>(k)].real(), tol<T>(64 * 64), "real part of the damped moment");
        sym_close(got[k].imag(), c.g[static_cast<size_t>(k)] * mu[static_cast<size_t>(k)].imag(), tol<T>(64 * 64), "imaginary part of the damped moment");
    }
    sym_reach("whole_moments");
}
SYM_HARNESS(moments_double) { whole_moments<double>(); }
SYM_HARNESS(moments_complex) { whole_moments<cd>(); }
SYM_HARNESS(moments_float) { whole_moments<float>(); }
