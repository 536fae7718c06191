// Activation layers: construction and reference.
#pragma once
#include "dwh.hpp"
struct Act { int kind; float alpha; }; // 0 ReLU 1 LeakyReLU 2 ELU 3 Sigmoid
inline const std::vector<Act>& acts() { static const std::vector<Act> v = {{0, 0}, {1, 0.f}, {1, 0.01f}, {1, 0.5f}, {1, 3.f}, {2, 1.f}, {2, 0.25f}, {2, 0.f}, {2, 2.f}, {3, 0}}; return v; }
// further slopes: negative and large ones
inline const std::vector<Act>& acts_more() { static const std::vector<Act> v = [] { auto r = acts(); for (Act a : {Act{1, -0.5f}, Act{1, 100.f}, Act{1, 1e-6f}, Act{1, 1.f}, Act{2, -0.75f}, Act{2, 40.f}, Act{2, 1e-4f}, Act{2, 1000.f}}) r.push_back(a); return r; }(); return v; }
inline std::string aname(const Act& a) { static const char* n[] = {"ReLU", "LeakyReLU", "ELU", "Sigmoid"}; return std::string(n[a.kind]) + (a.kind == 1 || a.kind == 2 ? "(" + fstr(a.alpha) + ")" : ""); }
inline Lay act_layer(const Act& a, const Sh& s) {
    switch (a.kind) { case 0: return Lay::make(dw::ReLU("a"), {s}); case 1: return Lay::make(dw::LeakyReLU(a.alpha, "a"), {s}); case 2: return Lay::make(dw::ELU(a.alpha, "a"), {s}); }
    return Lay::make(dw::Sigmoid("a"), {s});
}
struct Tol { double v, t; };
inline Tol act_ref(const Act& a, float x) {
    switch (a.kind) {
    case 0: return {x > 0 ? x : 0.0, 0};
    case 1: { if (x >= 0) return {x, 0}; double r = float(a.alpha * x); return {r, std::isfinite(r) ? std::fabs(r) * 1.3e-7 + 1.5e-45 : 0}; }
    case 2: if (x >= 0) return {x, 0}; return {double(a.alpha) * std::expm1(double(x)), std::fabs(a.alpha) * 4e-7};
    }
    double r = 1.0 / (1.0 + std::exp(-double(x))); return {r, r * 1e-6 + 1e-37};
}
// derivative
inline Tol act_der(const Act& a, float x) {
    switch (a.kind) {
    case 0: return {x > 0 ? 1.0 : 0.0, 0};
    case 1: return {x >= 0 ? 1.0 : double(a.alpha), 0};
    case 2: if (x >= 0) return {1.0, 0}; { double d = double(a.alpha) * std::exp(double(x)); return {d, std::fabs(d) * 1e-6 + 1e-37}; }
    }
    double e = std::exp(-std::fabs(double(x))); double r = e / ((1 + e) * (1 + e)); return {r, r * 1e-6 + 2.4e-7};
}
inline void act_fwd_on(vp::Ctx& c, Lay& l, Keep& keep, const Act& a, const Sh& s, const Vec& x) {
    auto tx = keep("x", s, x), ty = keep("y", s, Vec(x.size(), NAN)); std::vector<dw::Tensor> o{ty}; l.impl->forward({tx}, o);
    c.step();
    const float* y = ty.data();
    for (size_t i = 0; i < x.size(); ++i) {
        Tol r = act_ref(a, x[i]);
        bool ok = std::isnan(r.v) ? std::isnan(y[i]) : std::isinf(r.v) ? y[i] == r.v : std::isfinite(y[i]) && std::fabs(y[i] - r.v) <= r.t;
        if (!ok) c.fail(aname(a) + " shape " + sstr(s) + ": f(" + fstr(x[i]) + ") at position " + std::to_string(i) + " = " + fstr(y[i]) + ", expected " + fstr(r.v));
    }
    if (memcmp(tx.data(), x.data(), x.size() * 4)) c.fail(aname(a) + ": input modified");
}
inline void act_fwd_check(vp::Ctx& c, const Act& a, const Sh& s, const Vec& x) { Lay l = act_layer(a, s); Keep none; act_fwd_on(c, l, none, a, s, x); }
inline void act_bwd_on(vp::Ctx& c, Lay& l, Keep& keep, const Act& a, const Sh& s, const Vec& x, const Vec& go, const Vec& gi0) {
    auto tx = keep("x", s, x), ty = keep("y", s, Vec(x.size(), NAN)); std::vector<dw::Tensor> o{ty}; l.impl->forward({tx}, o); Vec y = vals(ty);
    auto tgo = keep("go", s, go), tgi = keep("gi", s, gi0);
    l.backward({tx}, ty, tgo, {tgi});
    c.step(2);
    const float* g = tgi.data();
    for (size_t i = 0; i < x.size(); ++i) {
        Tol r = act_der(a, x[i]); double e = double(gi0[i]) + double(go[i]) * r.v; double p = std::fabs(go[i] * r.v);
        double t = std::fabs(go[i]) * r.t + (std::fabs(e) + p) * 1.3e-7 + 1.5e-45;
        if (!(std::fabs(g[i] - e) <= t)) c.fail(aname(a) + " shape " + sstr(s) + ": gradient at input " + fstr(x[i]) + " position " + std::to_string(i) + " with grad_output " + fstr(go[i]) + " and existing gradient " + fstr(gi0[i]) + " = " + fstr(g[i]) + ", expected " + fstr(e));
    }
    if (memcmp(tx.data(), x.data(), x.size() * 4)) c.fail(aname(a) + ": input modified");
    if (memcmp(ty.data(), y.data(), x.size() * 4)) c.fail(aname(a) + ": output modified");
    if (memcmp(tgo.data(), go.data(), x.size() * 4)) c.fail(aname(a) + ": grad_output modified");
}
inline void act_bwd_check(vp::Ctx& c, const Act& a, const Sh& s, const Vec& x, const Vec& go, const Vec& gi0) { Lay l = act_layer(a, s); Keep none; act_bwd_on(c, l, none, a, s, x, go, gi0); }
inline const std::vector<Sh>& act_series() { static const std::vector<Sh> v = {{2, 3}, {3, 2}, {7}, {1, 2, 2, 2}, {4, 5}, {1}}; return v; }
inline const Vec& act_specials() { static const Vec v = {0.f, -0.f, 1e-45f, -1e-45f, 1.17549435e-38f, -1.17549435e-38f, 1e-8f, -1e-8f, 0.5f, -0.5f, -1.f, 2.f, -87.f, 88.5f, -88.5f, -100.f, 104.f, -104.f, 1e10f, -1e10f, 3.4e38f, -3.4e38f}; return v; }
inline std::vector<Sh> act_shapes(int n) {
    std::vector<Sh> r{{n}, {1, n}, {n, 1}};
    for (int d = 2; d < n; ++d) if (n % d == 0) { r.push_back({d, n / d}); r.push_back({1, d, 1, n / d}); r.push_back({d, n / d, 1, 1}); }
    return r;
}
// chunk k of the grid {m << shift}: CH consecutive grid points, NaNs replaced by 0 (and infinities if finite_only)
inline Vec grid_chunk(uint64_t k, int shift, size_t CH, bool finite_only) {
    Vec x(CH);
    for (size_t i = 0; i < CH; ++i) { uint32_t b = uint32_t((k * CH + i) << shift); float f = fbits(b); if (std::isnan(f) || (finite_only && std::isinf(f))) f = 0.f; x[i] = f; }
    return x;
}
