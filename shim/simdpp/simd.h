// Stand-in for libsimdpp, which is not installed here. It provides the part of the interface that
// pybinding's vectorised code is written against, with libsimdpp's documented semantics, on top of
// plain arrays. With VP_SIMD_NULL the library selects its generic (non-vector) code instead.
// Vectors wider than the base type (4 floats, 2 doubles) are made of several base vectors, which is
// what libsimdpp does on an SSE machine. Aligned loads and stores check their alignment.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <immintrin.h>
#include <type_traits>
#include <xmmintrin.h>

#ifdef VP_SIMD_NULL
# define SIMDPP_USE_NULL 1
# define SIMDPP_USE_SSE2 0
#else
# define SIMDPP_USE_NULL 0
# define SIMDPP_USE_SSE2 1
#endif
#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_SSSE3 0
#define SIMDPP_USE_SSE4_1 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0
#define SIMDPP_USE_FMA4 0
#define SIMDPP_USE_AVX512F 0
#define SIMDPP_USE_NEON 0

namespace simdpp {

namespace detail {
    // one base vector: K elements of T
    template<class T, unsigned K> struct Store { T e[K]; };
    template<class T> struct native { using type = void*; };

    template<class T> struct base_len { static constexpr unsigned value = 16 / sizeof(T); };

    inline void misaligned(void const* p, std::size_t want) {
        std::fprintf(stderr, "runtime error: aligned vector access to misaligned address %p (needs %zu)\n", p, want);
        std::abort();
    }
    template<std::size_t bytes> inline void check_aligned(void const* p) {
        if (reinterpret_cast<std::uintptr_t>(p) % bytes) { misaligned(p, bytes); }
    }
} // namespace detail

template<unsigned N, class E = void> struct float32;
template<unsigned N, class E = void> struct float64;
template<unsigned N, class E = void> struct uint32;
template<unsigned N, class E = void> struct uint64;

#define VP_DEFINE_VECTOR(NAME, T, LEN)                                                        \
    template<> struct alignas(16) NAME<LEN, void> {                                           \
        using element_type = T;                                                               \
        using base_vector_type = NAME<LEN, void>;                                             \
        static constexpr unsigned length = LEN;                                               \
        static constexpr unsigned base_length = LEN;                                          \
        static constexpr unsigned vec_length = 1;                                             \
        static constexpr unsigned length_bytes = 16;                                          \
        T e[LEN];                                                                             \
        NAME() = default;                                                                     \
        NAME(NAME const&) = default;                                                          \
        NAME& operator=(NAME const&) = default;                                               \
        VP_NATIVE_##NAME                                                                      \
        NAME const& eval() const { return *this; }                                            \
        base_vector_type& vec(unsigned) { return *this; }                                     \
        base_vector_type const& vec(unsigned) const { return *this; }                         \
        T& operator[](unsigned i) { return e[i]; }                                            \
        T operator[](unsigned i) const { return e[i]; }                                       \
    };                                                                                        \
    template<unsigned N> struct alignas(N * sizeof(T) > 32 ? 32 : N * sizeof(T)) NAME<N, void> { \
        static_assert(N % LEN == 0, "vector length");                                         \
        using element_type = T;                                                               \
        using base_vector_type = NAME<LEN, void>;                                             \
        static constexpr unsigned length = N;                                                 \
        static constexpr unsigned base_length = LEN;                                          \
        static constexpr unsigned vec_length = N / LEN;                                       \
        static constexpr unsigned length_bytes = N * sizeof(T);                               \
        base_vector_type d[N / LEN];                                                          \
        NAME() = default;                                                                     \
        NAME(NAME const&) = default;                                                          \
        NAME& operator=(NAME const&) = default;                                               \
        NAME const& eval() const { return *this; }                                            \
        base_vector_type& vec(unsigned i) { return d[i]; }                                    \
        base_vector_type const& vec(unsigned i) const { return d[i]; }                        \
        T& operator[](unsigned i) { return d[i / LEN].e[i % LEN]; }                           \
        T operator[](unsigned i) const { return d[i / LEN].e[i % LEN]; }                      \
    };

#define VP_NATIVE_float32                                                                     \
    float32(__m128 v) { _mm_storeu_ps(e, v); }                                                \
    float32& operator=(__m128 v) { _mm_storeu_ps(e, v); return *this; }                       \
    operator __m128() const { return _mm_loadu_ps(e); }
#define VP_NATIVE_float64                                                                     \
    float64(__m128d v) { _mm_storeu_pd(e, v); }                                               \
    float64& operator=(__m128d v) { _mm_storeu_pd(e, v); return *this; }                      \
    operator __m128d() const { return _mm_loadu_pd(e); }
#define VP_NATIVE_uint32
#define VP_NATIVE_uint64

VP_DEFINE_VECTOR(float32, float, 4)
VP_DEFINE_VECTOR(float64, double, 2)
VP_DEFINE_VECTOR(uint32, std::uint32_t, 4)
VP_DEFINE_VECTOR(uint64, std::uint64_t, 2)

using float32x4 = float32<4>;
using float32x8 = float32<8>;
using float64x2 = float64<2>;
using float64x4 = float64<4>;
using uint32x4 = uint32<4>;
using uint32x8 = uint32<8>;
using uint64x2 = uint64<2>;
using uint64x4 = uint64<4>;

namespace detail {
    template<class V> using elem = typename std::decay<V>::type::element_type;
    template<class V> struct is_vec : std::false_type {};
    template<unsigned N> struct is_vec<float32<N, void>> : std::true_type {};
    template<unsigned N> struct is_vec<float64<N, void>> : std::true_type {};
    template<unsigned N> struct is_vec<uint32<N, void>> : std::true_type {};
    template<unsigned N> struct is_vec<uint64<N, void>> : std::true_type {};
    template<class V> using if_vec = typename std::enable_if<is_vec<V>::value, int>::type;
    template<class V, class S> using if_vec_scalar =
        typename std::enable_if<is_vec<V>::value && std::is_arithmetic<S>::value, int>::type;
    template<class V> struct bits;
    template<unsigned N> struct bits<float32<N, void>> { using type = uint32<N>; };
    template<unsigned N> struct bits<float64<N, void>> { using type = uint64<N>; };
    template<unsigned N> struct bits<uint32<N, void>> { using type = uint32<N>; };
    template<unsigned N> struct bits<uint64<N, void>> { using type = uint64<N>; };
} // namespace detail

#define VP_BINARY(OP)                                                                         \
    template<class V, detail::if_vec<V> = 1> V operator OP(V const& a, V const& b) {          \
        V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = a[i] OP b[i]; } return r;      \
    }                                                                                         \
    template<class V, class S, detail::if_vec_scalar<V, S> = 1> V operator OP(V const& a, S b) { \
        V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = a[i] OP static_cast<typename V::element_type>(b); } return r; \
    }                                                                                         \
    template<class V, class S, detail::if_vec_scalar<V, S> = 1> V operator OP(S a, V const& b) { \
        V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = static_cast<typename V::element_type>(a) OP b[i]; } return r; \
    }
VP_BINARY(+)
VP_BINARY(-)
VP_BINARY(*)
VP_BINARY(/)
template<class V, detail::if_vec<V> = 1> V operator-(V const& a) { return neg(a); }
template<class V, detail::if_vec<V> = 1> V& operator+=(V& a, V const& b) { return a = a + b; }
template<class V, detail::if_vec<V> = 1> V& operator-=(V& a, V const& b) { return a = a - b; }
template<class V, detail::if_vec<V> = 1> V& operator*=(V& a, V const& b) { return a = a * b; }
template<class V, detail::if_vec<V> = 1> V add(V const& a, V const& b) { return a + b; }
template<class V, detail::if_vec<V> = 1> V sub(V const& a, V const& b) { return a - b; }
template<class V, detail::if_vec<V> = 1> V mul(V const& a, V const& b) { return a * b; }
template<class V, detail::if_vec<V> = 1> V fmadd(V const& a, V const& b, V const& c) { return a * b + c; }
template<class V, detail::if_vec<V> = 1> V fmsub(V const& a, V const& b, V const& c) { return a * b - c; }
template<class V, detail::if_vec<V> = 1> V neg(V const& a) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = -a[i]; } return r;
}
template<class V, detail::if_vec<V> = 1> V abs(V const& a) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = a[i] < 0 ? -a[i] : a[i]; } return r;
}
template<class V, detail::if_vec<V> = 1> V min(V const& a, V const& b) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = b[i] < a[i] ? b[i] : a[i]; } return r;
}
template<class V, detail::if_vec<V> = 1> V max(V const& a, V const& b) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = a[i] < b[i] ? b[i] : a[i]; } return r;
}

template<class R, class V> R bit_cast(V const& a) {
    static_assert(sizeof(R) == sizeof(V), "bit_cast");
    R r;
    std::memcpy(static_cast<void*>(&r), &a, sizeof r);
    return r;
}
#define VP_BITWISE(NAME, OP)                                                                  \
    template<class V, class M, detail::if_vec<V> = 1, detail::if_vec<M> = 1>                  \
    V NAME(V const& a, M const& m) {                                                          \
        using U = typename detail::bits<V>::type;                                             \
        auto x = bit_cast<U>(a); auto const y = bit_cast<U>(m);                               \
        for (unsigned i = 0; i < U::length; ++i) { x[i] = x[i] OP y[i]; }                     \
        return bit_cast<V>(x);                                                                \
    }
VP_BITWISE(bit_xor, ^)
VP_BITWISE(bit_and, &)
VP_BITWISE(bit_or, |)

// memory
template<class V> V load_u(void const* p) {
    V r;
    auto const q = static_cast<char const*>(p);
    for (unsigned i = 0; i < V::length; ++i) {
        typename V::element_type x;
        std::memcpy(&x, q + i * sizeof x, sizeof x);
        r[i] = x;
    }
    return r;
}
template<class V> V load(void const* p) {
    detail::check_aligned<(V::length_bytes > 32 ? 32 : V::length_bytes)>(p);
    return load_u<V>(p);
}
template<class V, detail::if_vec<V> = 1> void store_u(void* p, V const& a) {
    auto const q = static_cast<char*>(p);
    for (unsigned i = 0; i < V::length; ++i) {
        typename V::element_type const x = a[i];
        std::memcpy(q + i * sizeof x, &x, sizeof x);
    }
}
template<class V, detail::if_vec<V> = 1> void store(void* p, V const& a) {
    detail::check_aligned<(V::length_bytes > 32 ? 32 : V::length_bytes)>(p);
    store_u(p, a);
}
template<class V> V load_splat(void const* p) {
    typename V::element_type x;
    std::memcpy(&x, p, sizeof x);
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = x; } return r;
}
template<class V, class S> V splat(S s) {
    V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = static_cast<typename V::element_type>(s); } return r;
}
namespace detail {
    template<class V, class... S> V make_pattern(S... s) {
        typename V::element_type const v[] = {static_cast<typename V::element_type>(s)...};
        V r; for (unsigned i = 0; i < V::length; ++i) { r[i] = v[i % sizeof...(S)]; } return r;
    }
}
template<class V, class... S> V make_float(S... s) { return detail::make_pattern<V>(s...); }
template<class V, class... S> V make_uint(S... s) { return detail::make_pattern<V>(s...); }
template<class V, class... S> V make_int(S... s) { return detail::make_pattern<V>(s...); }
template<class V> V make_zero() { return splat<V>(0); }

// permutations, applied to each group of 2 (4) elements
template<unsigned s0, unsigned s1, class V, detail::if_vec<V> = 1> V permute2(V const& a) {
    static_assert(s0 < 2 && s1 < 2, "selector");
    V r;
    for (unsigned i = 0; i < V::length; i += 2) { r[i] = a[i + s0]; r[i + 1] = a[i + s1]; }
    return r;
}
template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, class V, detail::if_vec<V> = 1> V permute4(V const& a) {
    static_assert(s0 < 4 && s1 < 4 && s2 < 4 && s3 < 4 && V::length % 4 == 0, "selector");
    V r;
    for (unsigned i = 0; i < V::length; i += 4) { r[i] = a[i + s0]; r[i + 1] = a[i + s1]; r[i + 2] = a[i + s2]; r[i + 3] = a[i + s3]; }
    return r;
}
template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, class V, detail::if_vec<V> = 1>
V shuffle4x2(V const& a, V const& b) {
    static_assert(s0 < 8 && s1 < 8 && s2 < 8 && s3 < 8 && V::length % 4 == 0, "selector");
    V r;
    unsigned const s[] = {s0, s1, s2, s3};
    for (unsigned i = 0; i < V::length; ++i) {
        auto const k = s[i % 4], g = i - i % 4;
        r[i] = k < 4 ? a[g + k] : b[g + k - 4];
    }
    return r;
}
template<unsigned s0, unsigned s1, class V, detail::if_vec<V> = 1> V shuffle2x2(V const& a, V const& b) {
    static_assert(s0 < 4 && s1 < 4, "selector");
    V r;
    for (unsigned i = 0; i < V::length; i += 2) {
        r[i] = s0 < 2 ? a[i + s0] : b[i + s0 - 2];
        r[i + 1] = s1 < 2 ? a[i + s1] : b[i + s1 - 2];
    }
    return r;
}
template<class V, detail::if_vec<V> = 1> void transpose2(V& a, V& b) {
    auto const x = a, y = b;
    for (unsigned i = 0; i < V::length; i += 2) {
        a[i] = x[i]; a[i + 1] = y[i];
        b[i] = x[i + 1]; b[i + 1] = y[i + 1];
    }
}
template<class V, detail::if_vec<V> = 1> typename V::element_type reduce_add(V const& a) {
    auto r = typename V::element_type{0};
    for (unsigned i = 0; i < V::length; ++i) { r += a[i]; }
    return r;
}
template<class V, detail::if_vec<V> = 1> typename V::element_type reduce_max(V const& a) {
    auto r = a[0];
    for (unsigned i = 1; i < V::length; ++i) { r = r < a[i] ? a[i] : r; }
    return r;
}

} // namespace simdpp
