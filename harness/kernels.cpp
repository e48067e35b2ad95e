#include "common.hpp"
#include <vector>
#include "compute/kernel_polynomial.hpp"
#include "compute/lanczos.hpp"
using namespace hs;
using namespace cpb;

// Exact numbers: small integers in every scalar type
template<class T> struct Make;
template<> struct Make<float> { static float any(char const* n, int m) { return static_cast<float>(sym_dy(n, -m, m)); } };
template<> struct Make<double> { static double any(char const* n, int m) { return sym_dy(n, -m, m); } };
template<class R> struct Make<std::complex<R>> {
    static std::complex<R> any(char const* n, int m) { auto const re = Make<R>::any(n, m); return {re, Make<R>::any(n, m)}; }
};
template<class R> static bool eq(R a, R b) { return a == b; }
template<class R> static bool eq(std::complex<R> a, std::complex<R> b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
template<class R> static R times(R a, R b) { return a * b; }
template<class R> static std::complex<R> times(std::complex<R> a, std::complex<R> b) {
    return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
}
template<class R> static R cj(R a) { return a; }
template<class R> static std::complex<R> cj(std::complex<R> a) { return {a.real(), -a.imag()}; }
template<class R> static R re(R a) { return a; }
template<class R> static R re(std::complex<R> a) { return a.real(); }

// A sparse matrix: which columns each row has is decided by `shape`, the values are symbolic
template<class T> static SparseMatrixX<T> matrix(int n, int shape, int m) {
    SparseMatrixX<T> a(n, n);
    std::vector<Eigen::Triplet<T, int>> t;
    for (int r = 0; r < n; ++r) {
        std::set<int> cols;
        switch (shape) {
        case 0: cols = {r}; break;                                                  // diagonal
        case 1: if (r) { cols.insert(r - 1); } if (r + 1 < n) { cols.insert(r + 1); } break;
        case 2: cols = {0, n - 1 - r}; if (r % 3 == 1) { cols.clear(); } break;     // with empty rows
        case 4: break;                                                               // nothing
        case 3: for (int c = 0; c < (r * 2) % 4; ++c) { cols.insert((r + 2 * c) % n); } break;
        }
        for (auto c : cols) { t.emplace_back(r, c, Make<T>::any("a", m)); }
    }
    a.setFromTriplets(t.begin(), t.end());
    a.makeCompressed();
    return a;
}

template<class T, class M> static void vectors(SparseMatrixX<T> const& csr, M const& a, int n, int start, int end, bool diagonal, int m) {
    VectorX<T> x(n), y(n);
    for (int i = 0; i < n; ++i) { x[i] = Make<T>::any("x", m); y[i] = Make<T>::any("y", m); }
    VectorX<T> want = y;
    T m2 = Make<T>::any("m2", m), m3 = Make<T>::any("m3", m);
    // real sums: m2 collects norms
    T const m2_0 = m2, m3_0 = m3;
    T w2 = m2, w3 = m3;
    for (int r = start; r < end; ++r) {
        T s{0};
        for (typename SparseMatrixX<T>::InnerIterator it(csr, r); it; ++it) { s += times(it.value(), x[it.col()]); }
        want[r] = s - y[r];
        w2 += times(cj(x[r]), x[r]);
        w3 += times(cj(want[r]), x[r]);
    }
    auto const before = x;
    if (diagonal) { compute::kpm_spmv_diagonal(start, end, a, x, y, m2, m3); } else { compute::kpm_spmv(start, end, a, x, y); }
    bool ok = true, in = true;
    for (int i = 0; i < n; ++i) { ok &= eq(y[i], want[i]); in &= eq(x[i], before[i]); }
    sym_assert(ok, "y = A x - y in the rows asked for and nowhere else");
    sym_assert(in, "x is left alone");
    if (diagonal) { sym_assert(eq(m2, w2), "m2 = x . x over the rows"); sym_assert(eq(m3, w3), "m3 = y . x over the rows"); }
    else { sym_assert(eq(m2, m2_0) & eq(m3, m3_0), "untouched"); }
    sym_reach(diagonal ? "diagonal vector" : "vector");
}

template<class T, class M> static void batches(SparseMatrixX<T> const& csr, M const& a, int n, int start, int end, bool diagonal, int m) {
    constexpr int w = static_cast<int>(simd::traits<T>::size);
    MatrixX<T> x(n, w), y(n, w);
    for (int i = 0; i < n; ++i) { for (int c = 0; c < w; ++c) { x(i, c) = Make<T>::any("x", m); y(i, c) = Make<T>::any("y", m); } }
    MatrixX<T> want = y;
    simd::array<T> m2, m3;
    for (int c = 0; c < w; ++c) { m2[c] = Make<T>::any("m2", m); m3[c] = Make<T>::any("m3", m); }
    auto w2 = m2, w3 = m3;
    for (int r = start; r < end; ++r) {
        for (int c = 0; c < w; ++c) {
            T s{0};
            for (typename SparseMatrixX<T>::InnerIterator it(csr, r); it; ++it) { s += times(it.value(), x(it.col(), c)); }
            want(r, c) = s - y(r, c);
            w2[c] += times(cj(x(r, c)), x(r, c));
            w3[c] += times(cj(want(r, c)), x(r, c));
        }
    }
    if (diagonal) { compute::kpm_spmv_diagonal(start, end, a, x, y, m2, m3); } else { compute::kpm_spmv(start, end, a, x, y); }
    bool ok = true, s2 = true, s3 = true;
    for (int i = 0; i < n; ++i) { for (int c = 0; c < w; ++c) { ok &= eq(y(i, c), want(i, c)); } }
    for (int c = 0; c < w; ++c) { s2 &= eq(m2[c], w2[c]); s3 &= eq(m3[c], w3[c]); }
    sym_assert(ok, "Y = A X - Y in the rows asked for and nowhere else");
    if (diagonal) { sym_assert(s2, "m2 = x . x over the rows, for each column"); sym_assert(s3, "m3 = y . x over the rows, for each column"); }
    sym_reach(diagonal ? "diagonal batch" : "batch");
}

template<class T> static void kernels(int max_n, bool batch) {
    int const n = sym_pin(sym_int("size", 1, max_n));
    int const start = sym_pin(sym_int("start", 0, max_n - 1));
    sym_assume(start < n);
    int const end = sym_pin(sym_int("end", 0, max_n));
    sym_assume(end >= start && end <= n);
    auto const csr = matrix<T>(n, sym_pin(sym_int("shape", 0, 4)), 3);
    bool const diagonal = sym_bool("diagonal");
    if (sym_bool("ell")) {
        auto const ell = num::csr_to_ell(csr);
        if (batch) { batches<T>(csr, ell, n, start, end, diagonal, 3); } else { vectors<T>(csr, ell, n, start, end, diagonal, 3); }
    } else {
        if (batch) { batches<T>(csr, csr, n, start, end, diagonal, 3); } else { vectors<T>(csr, csr, n, start, end, diagonal, 3); }
    }
}

SYM_HARNESS(kernel_float) { kernels<float>(sym_thorough() ? 19 : 10, false); }
SYM_HARNESS(kernel_double) { kernels<double>(sym_thorough() ? 11 : 7, false); }
SYM_HARNESS(kernel_cfloat) { kernels<std::complex<float>>(sym_thorough() ? 11 : 6, false); }
SYM_HARNESS(kernel_cdouble) { kernels<std::complex<double>>(sym_thorough() ? 7 : 5, false); }
SYM_HARNESS(batch_float) { kernels<float>(sym_thorough() ? 5 : 4, true); }
SYM_HARNESS(batch_double) { kernels<double>(sym_thorough() ? 6 : 4, true); }
SYM_HARNESS(batch_cfloat) { kernels<std::complex<float>>(sym_thorough() ? 5 : 4, true); }
SYM_HARNESS(batch_cdouble) { kernels<std::complex<double>>(sym_thorough() ? 6 : 4, true); }

// one step of the Lanczos procedure
template<class T> static void lanczos(int max_n) {
    using R = num::get_real_t<T>;
    int const n = sym_pin(sym_int("size", 1, max_n));
    auto const csr = matrix<T>(n, sym_pin(sym_int("shape", 0, 4)), 3);
    VectorX<T> v1(n), v0(n);
    std::vector<T> w0(n), w1(n);
    for (int i = 0; i < n; ++i) { w0[i] = v0[i] = Make<T>::any("v0", 3); w1[i] = v1[i] = Make<T>::any("v1", 3); }
    R const b = Make<R>::any("b", 3), a = Make<R>::any("a", 3);
    if (sym_pin(sym_bool("multiply"))) {
        R const got = compute::lanczos_spmv(b, csr, v1, v0);
        T sum{0};
        bool ok = true, same = true;
        for (int r = 0; r < n; ++r) {
            T s{0};
            for (typename SparseMatrixX<T>::InnerIterator it(csr, r); it; ++it) { s += times(it.value(), w1[it.col()]); }
            sum += times(cj(s), w1[r]);
            ok &= eq(v0[r], T(s - times(T(b), w0[r])));
            same &= eq(v1[r], w1[r]);
        }
        sym_assert(ok, "v0 = H v1 - b v0");
        sym_assert(same, "v1 is left alone");
        sym_assert(got == re(sum), "a = <H v1 | v1>");
        sym_reach("multiply");
    } else {
        R const got = compute::lanczos_axpy(a, v1, v0);
        R norm2{0};
        bool ok = true, same = true;
        for (int r = 0; r < n; ++r) {
            T const x = w0[r] - times(T(a), w1[r]);
            ok &= eq(v0[r], x);
            same &= eq(v1[r], w1[r]);
            norm2 += re(times(cj(x), x));
        }
        sym_assert(ok, "v0 -= a v1, once for each element");
        sym_assert(same, "v1 is left alone");
        sym_assert(got == std::sqrt(norm2), "b = |v0|");
        sym_reach("subtract");
    }
}
SYM_HARNESS(lanczos_double) { lanczos<double>(sym_thorough() ? 9 : 6); }
SYM_HARNESS(lanczos_float) { lanczos<float>(sym_thorough() ? 12 : 9); }
SYM_HARNESS(lanczos_cdouble) { lanczos<std::complex<double>>(sym_thorough() ? 6 : 4); }
