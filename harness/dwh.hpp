// Helpers shared by the harnesses: tensors, layer driving, comparison.
#pragma once
#include "mc.hpp"
#include <array>
#include <initializer_list>
#include <numeric>
#include <deepworks/deepworks.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"

namespace dw = deepworks;
using Sh = dw::Shape;
using A2 = std::array<int, 2>;

inline std::string sstr(const Sh& s) { std::ostringstream o; o << "{"; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i]; o << "}"; return o.str(); }
inline std::string a2s(const A2& a) { return "{" + std::to_string(a[0]) + "," + std::to_string(a[1]) + "}"; }
inline size_t prod(const Sh& s) { size_t r = 1; for (int d : s) r *= d; return r; }
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float fbits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline std::string fstr(double v) { char b[64]; snprintf(b, sizeof b, "%.9g", v); return b; }

using Vec = std::vector<float>;
inline Vec vals(const dw::Tensor& t) { return Vec(t.data(), t.data() + t.total()); }
inline bool same_bits(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 4) == 0); }
inline dw::Tensor mk(const Sh& s, const Vec& v) { dw::Tensor t(s); std::copy(v.begin(), v.end(), t.data()); return t; }
template <typename F> Vec gen(size_t n, F f) { Vec v(n); for (size_t i = 0; i < n; ++i) v[i] = (float)f(i); return v; }
inline void setv(dw::Tensor t, const Vec& v) { std::copy(v.begin(), v.end(), t.data()); }
inline uint64_t hv(const Vec& v) { return vp::hash_bytes(v.data(), v.size() * 4); }

// Deterministic scattered small integers in [-m, m]: float sums/products stay exact.
inline int scat(uint64_t i, uint64_t salt, int m) { uint64_t h = vp::mix(vp::mix(salt, i), i * 31 + 7); return int(h % uint64_t(2 * m + 1)) - m; }
inline Vec ints(size_t n, uint64_t salt, int m) { return gen(n, [&](size_t i) { return scat(i, salt, m); }); }

inline bool close(double got, double ref, double rel, double abs_) {
    if (std::isnan(ref)) return std::isnan(got);
    if (std::isinf(ref)) return got == ref;
    if (!(std::isfinite(got))) return false;
    return std::fabs(got - ref) <= abs_ + rel * std::fabs(ref);
}
template <typename RefVec>
inline void expect_vec(vp::Ctx& c, const std::string& what, const Vec& got, const RefVec& ref, double rel = 0, double abs_ = 0) {
    if (got.size() != ref.size()) c.fail(what + ": size " + std::to_string(got.size()) + " expected " + std::to_string(ref.size()));
    for (size_t i = 0; i < got.size(); ++i)
        if (!close(got[i], ref[i], rel, abs_)) c.fail(what + "[" + std::to_string(i) + "] = " + fstr(got[i]) + ", expected " + fstr(ref[i]));
}
inline void expect_same(vp::Ctx& c, const std::string& what, const Vec& got, const Vec& ref) {
    if (got.size() != ref.size()) c.fail(what + ": size changed");
    for (size_t i = 0; i < got.size(); ++i) if (bits(got[i]) != bits(ref[i])) c.fail(what + "[" + std::to_string(i) + "] changed from " + fstr(ref[i]) + " to " + fstr(got[i]));
}
template <typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// One layer driven directly.
struct Lay {
    dw::LayerInfo info; dw::Shape out; dw::cpu::ICPULayer::Ptr impl;
    template <typename Op> static Lay make(Op op, const std::vector<Sh>& ins) {
        dw::Placeholders phs; for (auto& s : ins) phs.emplace_back(s);
        auto ph = op(phs);
        Lay l; l.info = op.m_info; l.out = ph.shape(); l.impl = dw::cpu::ICPULayer::create(l.info); return l;
    }
    dw::Tensor param(const std::string& n) const { return info.params().at(n).data(); }
    dw::Tensor grad(const std::string& n) const { return info.params().at(n).grad(); }
    dw::Tensor buffer(const std::string& n) const { return info.buffers().at(n); }
    void train(bool m) { for (auto& kv : info.impl().params) kv.second.train(m); }
    dw::Tensor forward(const std::vector<dw::Tensor>& in, const Sh& outshape) {
        std::vector<dw::Tensor> o{dw::Tensor(outshape)}; std::fill_n(o[0].data(), o[0].total(), NAN); impl->forward(in, o); return o[0];
    }
    dw::Tensor forward(const std::vector<dw::Tensor>& in) { return forward(in, out); }
    void params_grad(const std::vector<dw::Tensor>& in, const dw::Tensor& go) { impl->updateGradients(in, {go}); }
    void backward(const std::vector<dw::Tensor>& in, const dw::Tensor& o, const dw::Tensor& go, std::vector<dw::Tensor> gi) { impl->backward(in, {o}, {go}, gi); }
};

// Long histories on one object: which of n variants call k uses. Five schedules: one variant only,
// round robin, growing stretches, stretches of 64, one odd call out every 97.
inline const int SCHEDULES = 5;
inline int scheduled(int sched, int k, int n) { int s = 0; switch (sched) { case 0: return 0; case 1: return k % n; case 2: while (s * (s + 1) / 2 <= k) ++s; return s % n; case 3: return k / 64 % n; default: return k % 97 == 96 ? 1 + k / 97 % std::max(1, n - 1) % n : 0; } }
// Tensors that are either fresh for every call or overwritten in place whenever their role and shape come back.
struct Keep { bool on = false; std::vector<std::pair<std::string, dw::Tensor>> m;
    dw::Tensor operator()(const std::string& role, const Sh& s, const Vec& v) { if (!on) return mk(s, v); auto k = role + sstr(s); for (auto& e : m) if (e.first == k) { setv(e.second, v); return e.second; } m.push_back({k, mk(s, v)}); return m.back().second; } };
