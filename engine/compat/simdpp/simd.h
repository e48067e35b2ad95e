// A scalar model of the parts of libsimdpp (absent here) which the project uses, as configured for SSE2:
// vectors are arrays, and every operation is what the documentation of libsimdpp says it is, element by element.
// With VERIF_SIMD_NULL it takes the role of libsimdpp's configuration without instruction sets.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <array>
#ifdef VERIF_SIMD_NULL
# define SIMDPP_USE_NULL 1
# define SIMDPP_USE_SSE2 0
#else
# define SIMDPP_USE_NULL 0
# define SIMDPP_USE_SSE2 1
#endif
#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0
#undef _MM_SET_FLUSH_ZERO_MODE
#define _MM_SET_FLUSH_ZERO_MODE(x) ((void)0)

namespace verif_simd {
struct alignas(16) m128 { float d[4]; };
struct alignas(16) m128d { double d[2]; };
inline m128d load_sd(double const* p) { m128d r; r.d[0] = *p; r.d[1] = 0; return r; }
inline m128d loadh_pd(m128d a, double const* p) { a.d[1] = *p; return a; }
inline m128d load_pd(double const* p) {
    if (reinterpret_cast<std::uintptr_t>(p) % 16) { std::abort(); }    // the instruction faults
    m128d r; r.d[0] = p[0]; r.d[1] = p[1]; return r;
}
inline m128 load_ss(float const* p) { m128 r; r.d[0] = *p; r.d[1] = r.d[2] = r.d[3] = 0; return r; }
inline m128 unpacklo_ps(m128 a, m128 b) { m128 r; r.d[0] = a.d[0]; r.d[1] = b.d[0]; r.d[2] = a.d[1]; r.d[3] = b.d[1]; return r; }
inline m128 castpd_ps(m128d a) { m128 r; std::memcpy(&r, &a, sizeof r); return r; }
} // namespace verif_simd
#define __m128 verif_simd::m128
#define __m128d verif_simd::m128d
#define _mm_load_sd verif_simd::load_sd
#define _mm_loadh_pd verif_simd::loadh_pd
#define _mm_load_pd verif_simd::load_pd
#define _mm_load_ss verif_simd::load_ss
#define _mm_unpacklo_ps verif_simd::unpacklo_ps
#define _mm_castpd_ps verif_simd::castpd_ps

namespace simdpp {
template<unsigned N, class E = void> class float32;
template<unsigned N, class E = void> class float64;
template<unsigned N, class E = void> class uint32;
template<unsigned N, class E = void> class uint64;

namespace vd {
template<template<unsigned, class> class V, class T, unsigned N, unsigned Base>
struct alignas(16) Body {
    using element_type = T;
    using base_vector_type = V<Base, void>;
    static constexpr unsigned length = N;
    static constexpr unsigned base_length = Base;
    static constexpr unsigned vec_length = N / Base;
    T d[N];
    base_vector_type& vec(unsigned i) { return reinterpret_cast<base_vector_type&>(d[i * Base]); }
    base_vector_type const& vec(unsigned i) const { return reinterpret_cast<base_vector_type const&>(d[i * Base]); }
    V<N, void> const& eval() const { return static_cast<V<N, void> const&>(*this); }
};
} // namespace vd

template<unsigned N> class float32<N, void> : public vd::Body<float32, float, N, 4> {
public:
    float32() = default;
    float32(verif_simd::m128 const& x) { static_assert(N == 4, ""); for (unsigned i = 0; i < 4; ++i) { this->d[i] = x.d[i]; } }
};
template<unsigned N> class float64<N, void> : public vd::Body<float64, double, N, 2> {
public:
    float64() = default;
    float64(verif_simd::m128d const& x) { static_assert(N == 2, ""); for (unsigned i = 0; i < 2; ++i) { this->d[i] = x.d[i]; } }
};
template<unsigned N> class uint32<N, void> : public vd::Body<uint32, std::uint32_t, N, 4> {};
template<unsigned N> class uint64<N, void> : public vd::Body<uint64, std::uint64_t, N, 2> {};
using float32x4 = float32<4>;
using float64x2 = float64<2>;
using float32x8 = float32<8>;
using float64x4 = float64<4>;

#define VERIF_FOR for (unsigned i = 0; i < N; ++i)
#define VERIF_ARITH(V) \
    template<unsigned N, class A, class B> V<N> operator+(V<N, A> const& a, V<N, B> const& b) { V<N> r; VERIF_FOR { r.d[i] = a.d[i] + b.d[i]; } return r; } \
    template<unsigned N, class A, class B> V<N> operator*(V<N, A> const& a, V<N, B> const& b) { V<N> r; VERIF_FOR { r.d[i] = a.d[i] * b.d[i]; } return r; } \
    template<unsigned N, class A, class B> V<N> operator-(V<N, A> const& a, V<N, B> const& b) { V<N> r; VERIF_FOR { r.d[i] = a.d[i] - b.d[i]; } return r; } \
    template<unsigned N, class A> V<N> operator*(typename V<N>::element_type a, V<N, A> const& b) { V<N> r; VERIF_FOR { r.d[i] = a * b.d[i]; } return r; } \
    template<unsigned N, class A> V<N> neg(V<N, A> const& a) { V<N> r; VERIF_FOR { r.d[i] = -a.d[i]; } return r; } \
    template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, unsigned N, class A, class B> \
    V<N> shuffle4x2(V<N, A> const& a, V<N, B> const& b) { \
        unsigned const s[4] = {s0, s1, s2, s3}; V<N> r; \
        VERIF_FOR { unsigned const g = i / 4 * 4, k = s[i % 4]; r.d[i] = k < 4 ? a.d[g + k] : b.d[g + k - 4]; } return r; } \
    template<unsigned s0, unsigned s1, unsigned N, class A> V<N> permute2(V<N, A> const& a) { \
        unsigned const s[2] = {s0, s1}; V<N> r; VERIF_FOR { r.d[i] = a.d[i / 2 * 2 + s[i % 2]]; } return r; } \
    template<unsigned N> void transpose2(V<N>& a, V<N>& b) { \
        V<N> p = a, q = b; VERIF_FOR { a.d[i] = i % 2 ? q.d[i - 1] : p.d[i]; b.d[i] = i % 2 ? q.d[i] : p.d[i + 1]; } } \
    template<unsigned N, class A> typename V<N>::element_type reduce_add(V<N, A> const& a) { \
        typename V<N>::element_type r = a.d[0]; for (unsigned i = 1; i < N; ++i) { r += a.d[i]; } return r; }
VERIF_ARITH(float32)
VERIF_ARITH(float64)
#undef VERIF_ARITH

// only used with 0 and the sign bit
template<unsigned N, class A> float32<N> bit_xor(float32<N, A> const& a, uint32<N> const& b) {
    float32<N> r; VERIF_FOR { if (b.d[i] == 0) { r.d[i] = a.d[i]; } else if (b.d[i] == 0x80000000u) { r.d[i] = -a.d[i]; } else { std::abort(); } } return r;
}
template<unsigned N, class A> float64<N> bit_xor(float64<N, A> const& a, uint64<N> const& b) {
    float64<N> r; VERIF_FOR { if (b.d[i] == 0) { r.d[i] = a.d[i]; } else if (b.d[i] == 0x8000000000000000ull) { r.d[i] = -a.d[i]; } else { std::abort(); } } return r;
}
#undef VERIF_FOR

template<class V> V make_uint(typename V::element_type a) { V r; for (unsigned i = 0; i < V::length; ++i) { r.d[i] = a; } return r; }
template<class V> V make_uint(std::uint64_t a, std::uint64_t b) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r.d[i] = static_cast<typename V::element_type>(i % 2 ? b : a); } return r;
}
template<class V> V make_float(double a) { V r; for (unsigned i = 0; i < V::length; ++i) { r.d[i] = static_cast<typename V::element_type>(a); } return r; }

namespace vd {
inline void aligned(void const* p) { if (reinterpret_cast<std::uintptr_t>(p) % 16) { std::abort(); } }   // the instruction faults
}
// p points to real or complex numbers
template<class V, class T> V load_u(T const* p) {
    auto const q = reinterpret_cast<typename V::element_type const*>(p);
    V r; for (unsigned i = 0; i < V::length; ++i) { r.d[i] = q[i]; } return r;
}
template<class V, class T> V load(T const* p) { vd::aligned(p); return load_u<V>(p); }
template<class T, class V> void store_u(T* p, V const& a) {
    auto const q = reinterpret_cast<typename V::element_type*>(p);
    for (unsigned i = 0; i < V::length; ++i) { q[i] = a.d[i]; }
}
template<class T, class V> void store(T* p, V const& a) { vd::aligned(p); store_u(p, a); }
// every element is the first one at p
template<class V, class T> V load_splat(T const* p) {
    auto const q = reinterpret_cast<typename V::element_type const*>(p);
    V r; for (unsigned i = 0; i < V::length; ++i) { r.d[i] = q[0]; } return r;
}
template<class R, class V> R bit_cast(V const& a) { static_assert(sizeof(R) == sizeof(V), ""); R r; std::memcpy(&r, &a, sizeof r); return r; }
} // namespace simdpp
