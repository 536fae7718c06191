// Force-included when the library is compiled for the checks that enumerate the answers of the
// random generator: every standard engine asks vp_draw() for its next 32 bits and says which engine
// state (stream named by the seed, position in it) the draw uses up. std::random_device counts.
#pragma once
#include <random>
#include <cstdint>
extern "C" uint32_t vp_draw(uint64_t stream, uint64_t pos);
namespace std {
inline uint64_t vp_mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ull; return a ^ a >> 29; }
template <typename T, int Kind> struct vp_engine {
    using result_type = T; static constexpr T default_seed = 5489u;
    uint64_t stream, pos = 0;
    vp_engine() { seed(); }
    template <typename S, typename = typename enable_if<!is_same<typename decay<S>::type, vp_engine>::value>::type> explicit vp_engine(S&& s) { seed(static_cast<S&&>(s)); }
    vp_engine(const vp_engine&) = default;
    vp_engine& operator=(const vp_engine&) = default;
    void seed() { seed(default_seed); }
    template <typename S> void seed(S&& s) { pos = 0; if constexpr (is_arithmetic<typename decay<S>::type>::value || is_enum<typename decay<S>::type>::value) stream = vp_mix(Kind, uint64_t(s)); else { uint32_t w[4]; s.generate(w, w + 4); stream = vp_mix(Kind, w[0]); for (int i = 1; i < 4; ++i) stream = vp_mix(stream, w[i]); } }
    void discard(unsigned long long n) { pos += n; }
    static constexpr T min() { return 0; }
    static constexpr T max() { return ~T(0); }
    T operator()() { T r = vp_draw(stream, pos++); if (sizeof(T) == 8) r = (r << 31 << 1) | vp_draw(stream, pos++); return r; }
    friend bool operator==(const vp_engine& a, const vp_engine& b) { return a.stream == b.stream && a.pos == b.pos; }
    friend bool operator!=(const vp_engine& a, const vp_engine& b) { return !(a == b); }
};
struct vp_random_device { // values no two of which are equal
    using result_type = unsigned; vp_random_device() {} template <typename S> explicit vp_random_device(S&&) {} vp_random_device(const vp_random_device&) = delete; vp_random_device& operator=(const vp_random_device&) = delete;
    static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0u; } double entropy() const noexcept { return 32; }
    static result_type next(); result_type operator()() { return next(); }
};
inline unsigned vp_random_device::next() { static unsigned n = 0; return __atomic_add_fetch(&n, 1, __ATOMIC_RELAXED) * 2654435761u; }
using vp_engine32 = vp_engine<uint32_t, 1>;
using vp_engine64 = vp_engine<uint64_t, 2>;
using vp_minstd = vp_engine<uint32_t, 3>;
using vp_minstd0 = vp_engine<uint32_t, 4>;
using vp_ranlux24 = vp_engine<uint32_t, 5>;
using vp_ranlux48 = vp_engine<uint64_t, 6>;
using vp_knuth = vp_engine<uint32_t, 7>;
using vp_default_engine = vp_engine<uint32_t, 8>;
}
#define mt19937 vp_engine32
#define mt19937_64 vp_engine64
#define default_random_engine vp_default_engine
#define minstd_rand vp_minstd
#define minstd_rand0 vp_minstd0
#define ranlux24 vp_ranlux24
#define ranlux48 vp_ranlux48
#define knuth_b vp_knuth
#define random_device vp_random_device
