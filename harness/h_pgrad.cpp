// C11: parameter gradients are exact and belong to the latest pass only.
#include "ref.hpp"
#include "twins.hpp"
#include <map>
using PR = std::function<std::map<std::string, D>(const Vec& x, const Vec& go)>;
static void poison(Lay& l, int kind) { for (auto& kv : l.info.impl().params) { auto g = kv.second.grad(); for (size_t i = 0; i < g.total(); ++i) g.data()[i] = kind == 0 ? NAN : 1000.f + i; } }
struct Pass { Sh in, out; Vec x, go; };
static void run(vp::Ctx& c, Lay& l, const std::vector<Pass>& ps, const PR& r, double rel, double abs_, bool freeze) {
    std::map<std::string, Vec> pv; for (auto& kv : l.info.params()) pv[kv.first] = vals(kv.second.data());
    poison(l, 0);
    int k = 0;
    for (auto& p : ps) {
        if (freeze) { int j = 0; for (auto& kv : l.info.impl().params) kv.second.train(((k >> (j++)) & 1) == 0); } // every frozen subset along the passes
        auto tx = mk(p.in, p.x), ty = l.forward({tx}, p.out), tgo = mk(p.out, p.go), tgi = dw::Tensor::zeros(p.in); Vec y = vals(ty);
        if (k % 2) poison(l, 1);
        // batch norm wants one mode for both parameters in forward, so its flags change between the two passes and back
        if (!freeze) { int j = 0; for (auto& kv : l.info.impl().params) kv.second.train(((k >> (j++)) & 1) == 0); }
        // order of the backend: parameters first, then inputs
        l.params_grad({tx}, tgo); l.backward({tx}, ty, tgo, {tgi}); c.step(3);
        if (!freeze) l.train(true);
        auto e = r(p.x, p.go);
        for (auto& kv : e) { double a = abs_; if (abs_ > 0) for (float v : p.go) a = std::max(a, abs_ * std::fabs(v)); expect_vec(c, "gradient of " + kv.first + " in pass " + std::to_string(k), vals(l.grad(kv.first)), kv.second, rel, a); }
        for (auto& kv : pv) expect_same(c, "value of " + kv.first, vals(l.param(kv.first)), kv.second);
        expect_same(c, "input", vals(tx), p.x); expect_same(c, "grad_output", vals(tgo), p.go); expect_same(c, "output", vals(ty), y);
        ++k;
    }
}
static std::vector<Pass> passes(const std::vector<std::pair<Sh, Sh>>& s, bool units) {
    std::vector<Pass> r; int salt = 0;
    for (auto& io : s) { size_t n = prod(io.first), m = prod(io.second); r.push_back({io.first, io.second, ints(n, 20 + salt, 5), ints(m, 30 + salt, 6)}); ++salt; }
    auto io = s[0]; size_t m = prod(io.second);
    if (units) for (size_t u = 0; u < m; ++u) { Vec go(m, 0.f); go[u] = 1; r.push_back({io.first, io.second, ints(prod(io.first), 50 + u, 5), go}); }
    r.push_back({io.first, io.second, ints(prod(io.first), 9, 5), Vec(m, 0.f)});
    for (int e : {20, -30}) { Vec go = ints(m, 8, 6); for (auto& v : go) v = std::ldexp(v, e); r.push_back({io.first, io.second, ints(prod(io.first), 12, 5), go}); }
    r.push_back({io.first, io.second, Vec(prod(io.first), 2.f), ints(m, 14, 6)}); r.push_back({io.first, io.second, ints(prod(io.first), 15, 5), Vec(m, 1.f)});
    return r;
}
static void lin(vp::Ctx& c, const Sh& s, int u, bool units) {
    int f = int(prod(s)) / s[0];
    Lay l = Lay::make(dw::Linear(u, "l"), {s}); setv(l.param("weight"), ints(size_t(u) * f, 1, 7)); setv(l.param("bias"), ints(u, 2, 9));
    Sh s2 = s; s2[0] = s[0] + 3;
    run(c, l, passes({{s, {s[0], u}}, {s2, {s2[0], u}}, {s, {s[0], u}}, {s2, {s2[0], u}}}, units), [&](const Vec& x, const Vec& go) { int n = int(x.size()) / f; return std::map<std::string, D>{{"weight", ref::linear_gw(n, f, u, x, go)}, {"bias", ref::linear_gb(n, u, go)}}; }, 0, 0, true);
}
SCENARIO(linear, 3) { int n = c.range(1, 4), u = c.range(1, 6), r = c.range(2, 6); Sh s(r); s[0] = n; for (int i = 1; i < r; ++i) s[i] = c.range(1, r == 2 ? 12 : r > 4 ? 2 : 3); c.tell("Linear in=", sstr(s), " units=", u); c.state(vp::mix(vp::hash_str(sstr(s)), u)); lin(c, s, u, true); }
SCENARIO(linear_large, 2) { static const std::vector<int> N = {1, 3, 8, 17, 64, 129}, F = {1, 8, 17, 65, 128, 300}, U = {1, 8, 10, 17, 48, 256}; int n = c.pick(N), f = c.pick(F), u = c.pick(U); c.tell("Linear ", n, "x", f, " units=", u); c.state(vp::mix(vp::mix(n, f), u)); lin(c, f % 4 == 0 ? Sh{n, 2, f / 4, 2} : Sh{n, f}, u, false); }
SCENARIO(linear_huge, 1) {
    static const std::vector<std::array<int, 3>> S = {{300, 3, 2}, {520, 2, 3}, {1030, 5, 4}, {2, 1030, 3}, {3, 2050, 2}, {1, 5000, 2}, {2, 3, 1030}, {1, 5, 4100}, {130, 520, 5}, {3, 520, 520}, {20000, 2, 2}};
    auto q = c.pick(S); Sh s = q[1] % 2 == 0 ? Sh{q[0], 2, q[1] / 2} : Sh{q[0], q[1]}; c.tell("Linear in=", sstr(s), " units=", q[2]); c.state(vp::mix(vp::hash_str(sstr(s)), q[2])); lin(c, s, q[2], false);
}
static void conv(vp::Ctx& c, const ref::Geo& g, bool units) {
    Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); setv(l.param("weight"), ints(prod(g.wt()), 11, 5)); setv(l.param("bias"), ints(g.co, 12, 5));
    ref::Geo g2 = g; g2.n = g.n + 2; ref::Geo g3 = g; g3.h = g.h + 1; g3.w = g.w + 2;
    std::vector<Pass> ps = passes({{g.in(), g.out()}, {g2.in(), g2.out()}, {g.in(), g.out()}, {g3.in(), g3.out()}}, units);
    run(c, l, ps, [&](const Vec& x, const Vec& go) { const ref::Geo& q = x.size() == prod(g2.in()) && go.size() == prod(g2.out()) ? g2 : x.size() == prod(g3.in()) && go.size() == prod(g3.out()) ? g3 : g; return std::map<std::string, D>{{"weight", ref::conv_gw(q, x, go)}, {"bias", ref::conv_gb(q, go)}}; }, 0, 0, true);
}
SCENARIO(conv, 5) {
    int M = c.thorough() ? 5 : 4; ref::Geo g; g.h = c.range(1, M); g.w = c.range(1, M); g.k = {c.range(1, 3), c.range(1, 3)}; g.p = {c.range(0, 2), c.range(0, 2)}; g.s = {c.range(1, 3), c.range(1, 3)};
    if (!g.fits()) throw vp::Skip{};
    int v = c.choose(c.thorough() ? 6 : 3); static const int T[6][3] = {{1, 1, 1}, {2, 2, 1}, {2, 1, 2}, {1, 2, 3}, {3, 1, 1}, {2, 3, 2}}; g.n = T[v][0]; g.ci = T[v][1]; g.co = T[v][2];
    ref::Geo g2 = g, g3 = g; g2.n += 2; g3.h += 1; g3.w += 2; if (prod(g2.in()) == prod(g3.in()) && prod(g2.out()) == prod(g3.out())) throw vp::Skip{};
    c.tell(g.str()); c.state(vp::hash_str(g.str())); conv(c, g, prod(g.out()) <= 12);
}
SCENARIO(conv_large, 1) {
    static const std::vector<ref::Geo> gs = {{2, 3, 32, 32, 4, {3, 3}, {1, 1}, {1, 1}}, {1, 16, 14, 14, 20, {3, 3}, {1, 1}, {2, 2}}, {20, 2, 9, 5, 3, {2, 3}, {1, 0}, {1, 2}}, {1, 40, 4, 6, 9, {1, 1}, {0, 0}, {1, 1}}, {5, 1, 28, 28, 6, {5, 5}, {0, 0}, {1, 1}}, {1, 2, 12, 16, 2, {7, 5}, {3, 4}, {4, 3}}, {70, 1, 4, 4, 1, {2, 2}, {0, 0}, {2, 2}}, {3, 8, 8, 8, 17, {3, 1}, {0, 1}, {3, 1}}, {1, 1, 3, 90, 2, {2, 33}, {1, 16}, {1, 8}}, {300, 2, 3, 3, 2, {2, 2}, {0, 1}, {1, 1}}, {1030, 1, 2, 1, 1, {1, 1}, {0, 0}, {1, 1}}, {1, 300, 3, 3, 2, {2, 2}, {0, 0}, {1, 1}}, {2, 1030, 1, 2, 2, {1, 1}, {0, 0}, {1, 1}}, {1, 2, 3, 2, 300, {2, 2}, {0, 0}, {1, 1}}, {2, 2, 1, 2, 1030, {1, 1}, {0, 0}, {1, 1}}, {2, 1, 100, 90, 2, {3, 3}, {1, 1}, {1, 1}}, {1, 1, 260, 255, 1, {2, 2}, {0, 1}, {1, 1}}, {1, 1, 30, 33, 2, {30, 30}, {0, 0}, {1, 1}}, {1, 160, 4, 4, 3, {3, 3}, {0, 1}, {1, 1}}, {1, 1, 2, 2100, 1, {2, 3}, {0, 1}, {1, 2}}, {1, 2, 9, 9, 2, {3, 3}, {20, 17}, {1, 1}}, {1, 1, 40, 40, 1, {2, 2}, {0, 0}, {37, 20}}};
    auto g = c.pick(gs); c.tell(g.str()); c.state(vp::hash_str(g.str())); conv(c, g, false);
}
static void bn(vp::Ctx& c, const Sh& s, float eps, bool units) {
    int C = s[1], pl = s.size() == 4 ? s[2] * s[3] : 1;
    Lay l = s.size() == 4 ? Lay::make(dw::BatchNorm2D(eps, 0.1f, "b"), {s}) : Lay::make(dw::BatchNorm1D(eps, 0.1f, "b"), {s});
    setv(l.param("gamma"), gen(C, [](size_t i) { return i % 3 == 0 ? 1.0 : i % 3 == 1 ? -2.0 : 0.5; })); setv(l.param("beta"), ints(C, 4, 3));
    Sh s2 = s; s2[0] += 2;
    run(c, l, passes({{s, s}, {s2, s2}, {s, s}, {s2, s2}}, units), [&](const Vec& x, const Vec& go) { ref::BN g{int(x.size()) / (C * pl), C, pl}; auto st = ref::bn_stats(g, x); return std::map<std::string, D>{{"gamma", ref::bn_ggamma(g, x, st, eps, go)}, {"beta", ref::bn_gbeta(g, go)}}; }, 2e-5, 4e-6 * (1 + double(s2[0]) * pl * 0.1) / std::min(1.0, std::sqrt(double(eps))), false);
}
SCENARIO(bn1d, 2) { Sh s{c.range(1, 6), c.range(1, 9)}; float e = c.pick(std::vector<float>{0.25f, 1e-3f}); c.tell("BatchNorm1D ", sstr(s), " eps=", e); c.state(vp::mix(vp::hash_str(sstr(s)), bits(e))); bn(c, s, e, true); }
SCENARIO(bn2d, 3) { Sh s{c.range(1, 3), c.range(1, 4), c.range(1, 4), c.range(1, 4)}; float e = c.pick(std::vector<float>{0.25f, 1e-3f}); c.tell("BatchNorm2D ", sstr(s), " eps=", e); c.state(vp::mix(vp::hash_str(sstr(s)), bits(e))); bn(c, s, e, prod(s) <= 40); }
SCENARIO(bn_large, 1) { static const std::vector<Sh> S = {{64, 17}, {17, 64}, {33, 33}, {128, 3}, {4, 16, 7, 5}, {2, 33, 4, 4}, {9, 5, 8, 8}, {1, 3, 20, 20}, {300, 3}, {1030, 2}, {4, 130}, {2, 1030}, {2, 300, 2, 2}, {260, 2, 1, 2}, {1, 2, 23, 24}, {2, 130, 1, 2}}; Sh s = c.pick(S); c.tell("BatchNorm ", sstr(s)); c.state(vp::hash_str(sstr(s))); bn(c, s, 0.25f, false); }
// one layer, many passes over inputs of changing shapes and contents; the gradients are never cleared in between
struct Series { std::string name; Lay l; std::vector<Sh> in; std::function<Sh(const Sh&)> out; std::function<std::map<std::string, D>(const Sh&, const Vec& x, const Vec& go)> ref; double rel, abs_; };
static Series series(int kind) {
    using Mp = std::map<std::string, D>;
    switch (kind) {
    case 0: { Lay l = Lay::make(dw::Linear(3, "l"), {{2, 4}}); setv(l.param("weight"), ints(12, 1, 7)); return {"Linear(3)", l, {{2, 4}, {5, 4}, {1, 4}, {3, 2, 2}, {2, 1, 4, 1}}, [](const Sh& s) { return Sh{s[0], 3}; }, [](const Sh& s, const Vec& x, const Vec& go) { return Mp{{"weight", ref::linear_gw(s[0], 4, 3, x, go)}, {"bias", ref::linear_gb(s[0], 3, go)}}; }, 0, 0}; }
    case 1: case 2: { ref::Geo g = kind == 1 ? ref::Geo{2, 2, 3, 5, 3, {2, 3}, {1, 0}, {1, 2}} : ref::Geo{1, 1, 4, 6, 2, {3, 3}, {1, 1}, {1, 1}}; Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); setv(l.param("weight"), ints(prod(g.wt()), 11, 5));
        auto at = [g](const Sh& s) { auto q = g; q.n = s[0]; q.h = s[2]; q.w = s[3]; return q; };
        return {"Convolution " + g.str(), l, kind == 1 ? std::vector<Sh>{{2, 2, 3, 5}, {1, 2, 3, 5}, {3, 2, 5, 3}, {2, 2, 7, 5}, {5, 2, 1, 3}} : std::vector<Sh>{{1, 1, 4, 6}, {1, 1, 6, 4}, {2, 1, 3, 4}, {3, 1, 2, 4}, {1, 1, 2, 2}}, [at](const Sh& s) { return at(s).out(); }, [at](const Sh& s, const Vec& x, const Vec& go) { return Mp{{"weight", ref::conv_gw(at(s), x, go)}, {"bias", ref::conv_gb(at(s), go)}}; }, 0, 0}; }
    default: { bool two = kind == 4; Sh f = two ? Sh{2, 2, 2, 3} : Sh{4, 3}; int C = f[1]; Lay l = two ? Lay::make(dw::BatchNorm2D(0.25f, 0.1f, "b"), {f}) : Lay::make(dw::BatchNorm1D(0.25f, 0.1f, "b"), {f}); setv(l.param("gamma"), gen(C, [](size_t i) { return i % 2 ? -2.0 : 1.5; }));
        return {two ? "BatchNorm2D" : "BatchNorm1D", l, two ? std::vector<Sh>{{2, 2, 2, 3}, {1, 2, 3, 4}, {3, 2, 3, 2}, {4, 2, 1, 1}} : std::vector<Sh>{{4, 3}, {2, 3}, {7, 3}, {5, 3}}, [](const Sh& s) { return s; }, [C](const Sh& s, const Vec& x, const Vec& go) { ref::BN g{s[0], C, s.size() == 4 ? s[2] * s[3] : 1}; auto st = ref::bn_stats(g, x); return Mp{{"gamma", ref::bn_ggamma(g, x, st, 0.25, go)}, {"beta", ref::bn_gbeta(g, go)}}; }, 2e-5, 3e-4}; }
    }
}
static void one(vp::Ctx& c, Series& q, Keep& k, const Sh& s, int d) {
    Vec x = ints(prod(s), 20 + d * 3, 6); auto tx = k("x", s, x); Sh os = q.out(s); std::vector<dw::Tensor> o{k("y", os, Vec(prod(os), NAN))}; q.l.impl->forward({tx}, o); Vec go = ints(prod(os), 5 + d, 9); auto tgo = k("go", os, go), gi = k("gi", s, Vec(prod(s), 0.f));
    std::map<std::string, Vec> pv; for (auto& kv : q.l.info.params()) pv[kv.first] = vals(kv.second.data());
    q.l.params_grad({tx}, tgo); if (d % 3) q.l.backward({tx}, o[0], tgo, {gi}); c.step(2);
    for (auto& kv : q.ref(s, x, go)) expect_vec(c, "gradient of " + kv.first, vals(q.l.grad(kv.first)), kv.second, q.rel, q.abs_); for (auto& kv : pv) expect_same(c, "value of " + kv.first, vals(q.l.param(kv.first)), kv.second); expect_same(c, "input", vals(tx), x); expect_same(c, "grad_output", vals(tgo), go);
}
SCENARIO(calls, 3) {
    int kind = c.choose(5); Series q = series(kind); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = kind * 2 + k.on + 7777; c.tell(q.name, k.on ? " tensors overwritten in place" : "");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)q.in.size()); c.tell(sstr(q.in[i])); one(c, q, k, q.in[i], d * 7 + i); st = vp::mix(st, i); c.state(st); }
}
SCENARIO(long_run, 3) { int kind = c.choose(5); Series q = series(kind); int sc = c.choose(SCHEDULES); Keep k; k.on = c.flip(); int N = c.thorough() ? 30000 : 2100; c.tell(q.name, " ", N, " passes, schedule ", sc); for (int d = 0; d < N; ++d) { one(c, q, k, q.in[scheduled(sc, d, (int)q.in.size())], d); c.states_n(1); } }
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Linear","Convolution","BatchNorm"}, twins::PGRAD); }
static Series conv_series(const ref::Geo& g) { Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); setv(l.param("weight"), ints(prod(g.wt()), 11, 5)); return {"Convolution " + g.str(), l, {g.in()}, [g](const Sh&) { return g.out(); }, [g](const Sh&, const Vec& x, const Vec& go) { return std::map<std::string, D>{{"weight", ref::conv_gw(g, x, go)}, {"bias", ref::conv_gb(g, go)}}; }, 0, 0}; }
static Series bn_series(float eps, bool two) { Sh f = two ? Sh{2, 2, 2, 3} : Sh{4, 3}; int C = f[1]; Lay l = two ? Lay::make(dw::BatchNorm2D(eps, 0.1f, "b"), {f}) : Lay::make(dw::BatchNorm1D(eps, 0.1f, "b"), {f}); setv(l.param("gamma"), gen(C, [](size_t i) { return i % 2 ? -2.0 : 1.5; }));
    return {two ? "BatchNorm2D" : "BatchNorm1D", l, {f}, [](const Sh& s) { return s; }, [=](const Sh& s, const Vec& x, const Vec& go) { ref::BN g{s[0], C, two ? s[2] * s[3] : 1}; auto st = ref::bn_stats(g, x); return std::map<std::string, D>{{"gamma", ref::bn_ggamma(g, x, st, eps, go)}, {"beta", ref::bn_gbeta(g, go)}}; }, 2e-5, 3e-4}; }
// several layers that differ in one attribute, used in every order
SCENARIO(neighbours, 2) {
    int kind = c.choose(3), D = c.thorough() ? 4 : 3; std::vector<Series> v; uint64_t st = kind;
    if (kind < 2) for (auto& g : ref::neighbours(kind ? ref::Geo{2, 2, 5, 6, 2, {2, 2}, {1, 1}, {1, 1}} : ref::Geo{2, 1, 4, 5, 1, {1, 2}, {0, 0}, {2, 2}}, true)) v.push_back(conv_series(g));
    else for (float e : {0.25f, 1.f, 1e-3f}) for (int two = 0; two < 2; ++two) v.push_back(bn_series(e, two));
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(v[i].name, " ", sstr(v[i].in[0])); Keep none; one(c, v[i], none, v[i].in[0], d * 3 + 1); st = vp::mix(st, i); c.state(st); }
}
