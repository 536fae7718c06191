// C10: input gradients = existing gradient + grad_output x Jacobian, for every unit grad_output.
#include "ref.hpp"
#include "twins.hpp"
using GradRef = std::function<D(const Vec& go)>;
struct Snap { std::vector<std::pair<std::string, Vec>> v; Snap(const Lay& l) { for (auto& kv : l.info.params()) v.push_back({kv.first, vals(kv.second.data())}); for (auto& kv : l.info.buffers()) v.push_back({kv.first, vals(kv.second)}); }
    void same(vp::Ctx& c, const Lay& l) { Snap n(l); for (size_t i = 0; i < v.size(); ++i) expect_same(c, v[i].first, n.v[i].second, v[i].second); } };
// ins: input tensors; refs[i]: reference of gradient of input i
static void run(vp::Ctx& c, Lay& l, const std::vector<Sh>& shs, const std::vector<Vec>& xs, const std::vector<GradRef>& refs, const Sh& os, double rel, double abs_, bool units, bool pg = true) {
    std::vector<dw::Tensor> in; for (size_t i = 0; i < shs.size(); ++i) in.push_back(mk(shs[i], xs[i]));
    auto ty = l.forward(in, os); Vec y = vals(ty); c.step();
    Snap snap(l);
    size_t no = prod(os); bool tiny = false;
    auto once = [&](const Vec& go, int acc) {
        std::vector<dw::Tensor> gi; std::vector<Vec> g0;
        for (size_t i = 0; i < shs.size(); ++i) { g0.push_back(acc ? ints(prod(shs[i]), 70 + i, 6) : Vec(prod(shs[i]), 0.f)); gi.push_back(mk(shs[i], g0[i])); }
        auto tgo = mk(os, go);
        if (pg) l.params_grad(in, tgo);
        l.backward(in, ty, tgo, gi); c.step();
        expect_same(c, "grad_output", vals(tgo), go); expect_same(c, "output", vals(ty), y);
        for (size_t i = 0; i < shs.size(); ++i) {
            expect_same(c, "input " + std::to_string(i), vals(in[i]), xs[i]);
            D e = refs[i](go); for (size_t k = 0; k < e.size(); ++k) e[k] += g0[i][k];
            double a = tiny ? 0 : abs_; if (abs_ > 0) for (float v : go) a = std::max(a, abs_ * std::fabs(v));
            expect_vec(c, "grad_input " + std::to_string(i), vals(gi[i]), e, rel, a);
        }
        snap.same(c, l);
    };
    if (units) for (size_t u = 0; u < no; ++u) { Vec go(no, 0.f); go[u] = 1; once(go, u % 3 != 0); }
    once(ints(no, 5, 9), 1); once(ints(no, 6, 9), 0); once(ints(no, 5, 9), 1);
    // magnitudes: the product is linear in grad_output
    for (int e : {30, -30}) { Vec go = ints(no, 8, 9); for (auto& v : go) v = std::ldexp(v, e); tiny = e < 0; once(go, 0); tiny = false; }
    once(Vec(no, 0.f), 1); once(Vec(no, 3.f), 1);
}
static void lin(vp::Ctx& c, const Sh& s, int u, bool units) {
    int n = s[0], f = int(prod(s)) / n;
    Lay l = Lay::make(dw::Linear(u, "l"), {s}); Vec W = ints(size_t(u) * f, 1, 7), b = ints(u, 2, 9), x = ints(prod(s), 3, 5); setv(l.param("weight"), W); setv(l.param("bias"), b);
    run(c, l, {s}, {x}, {[&](const Vec& go) { return ref::linear_gx(n, f, u, W, go); }}, {n, u}, 0, 0, units);
}
SCENARIO(linear, 3) {
    int n = c.range(1, 4), u = c.range(1, 6), r = c.range(2, 6); Sh s(r); s[0] = n; for (int i = 1; i < r; ++i) s[i] = c.range(1, r == 2 ? 12 : r > 4 ? 2 : 3);
    c.tell("Linear in=", sstr(s), " units=", u); c.state(vp::mix(vp::hash_str(sstr(s)), u)); lin(c, s, u, true);
}
SCENARIO(linear_large, 2) {
    static const std::vector<int> N = {1, 3, 8, 17, 64, 129}, F = {1, 8, 17, 65, 128, 300}, U = {1, 8, 10, 17, 48, 256};
    int n = c.pick(N), f = c.pick(F), u = c.pick(U); c.tell("Linear ", n, "x", f, " units=", u); c.state(vp::mix(vp::mix(n, f), u)); lin(c, f % 4 == 0 ? Sh{n, 2, f / 4, 2} : Sh{n, f}, u, false);
}
SCENARIO(linear_huge, 1) {
    static const std::vector<std::array<int, 3>> S = {{300, 3, 2}, {520, 2, 3}, {1030, 5, 4}, {2, 1030, 3}, {3, 2050, 2}, {1, 5000, 2}, {2, 3, 1030}, {1, 5, 4100}, {130, 520, 5}, {3, 520, 520}, {20000, 2, 2}};
    auto q = c.pick(S); Sh s = q[1] % 2 == 0 ? Sh{q[0], 2, q[1] / 2} : Sh{q[0], q[1]}; c.tell("Linear in=", sstr(s), " units=", q[2]); c.state(vp::mix(vp::hash_str(sstr(s)), q[2])); lin(c, s, q[2], false);
}
static void conv(vp::Ctx& c, const ref::Geo& g, bool units) {
    Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); Vec W = ints(prod(g.wt()), 11, 5), b = ints(g.co, 12, 5), x = ints(prod(g.in()), 13, 5); setv(l.param("weight"), W); setv(l.param("bias"), b);
    run(c, l, {g.in()}, {x}, {[&](const Vec& go) { return ref::conv_gx(g, W, go); }}, g.out(), 0, 0, units);
}
SCENARIO(conv, 5) {
    int M = c.thorough() ? 5 : 4; ref::Geo g; g.h = c.range(1, M); g.w = c.range(1, M); g.k = {c.range(1, 3), c.range(1, 3)}; g.p = {c.range(0, 2), c.range(0, 2)}; g.s = {c.range(1, 3), c.range(1, 3)};
    if (!g.fits()) throw vp::Skip{};
    int v = c.choose(c.thorough() ? 6 : 3); static const int T[6][3] = {{1, 1, 1}, {2, 2, 1}, {2, 1, 2}, {1, 2, 3}, {3, 1, 1}, {2, 3, 2}}; g.n = T[v][0]; g.ci = T[v][1]; g.co = T[v][2];
    c.tell(g.str()); c.state(vp::hash_str(g.str())); conv(c, g, prod(g.out()) <= 24);
}
SCENARIO(conv_large, 1) {
    static const std::vector<ref::Geo> gs = {{2, 3, 32, 32, 4, {3, 3}, {1, 1}, {1, 1}}, {1, 16, 14, 14, 20, {3, 3}, {1, 1}, {2, 2}}, {20, 2, 9, 5, 3, {2, 3}, {1, 0}, {1, 2}}, {1, 40, 4, 6, 9, {1, 1}, {0, 0}, {1, 1}}, {5, 1, 28, 28, 6, {5, 5}, {0, 0}, {1, 1}}, {1, 2, 12, 16, 2, {7, 5}, {3, 4}, {4, 3}}, {70, 1, 4, 4, 1, {2, 2}, {0, 0}, {2, 2}}, {3, 8, 8, 8, 17, {3, 1}, {0, 1}, {3, 1}}, {1, 1, 3, 90, 2, {2, 33}, {1, 16}, {1, 8}}, {300, 2, 3, 3, 2, {2, 2}, {0, 1}, {1, 1}}, {1030, 1, 2, 1, 1, {1, 1}, {0, 0}, {1, 1}}, {1, 300, 3, 3, 2, {2, 2}, {0, 0}, {1, 1}}, {2, 1030, 1, 2, 2, {1, 1}, {0, 0}, {1, 1}}, {1, 2, 3, 2, 300, {2, 2}, {0, 0}, {1, 1}}, {2, 2, 1, 2, 1030, {1, 1}, {0, 0}, {1, 1}}, {2, 1, 100, 90, 2, {3, 3}, {1, 1}, {1, 1}}, {1, 1, 260, 255, 1, {2, 2}, {0, 1}, {1, 1}}, {1, 1, 30, 33, 2, {30, 30}, {0, 0}, {1, 1}}, {1, 160, 4, 4, 3, {3, 3}, {0, 1}, {1, 1}}, {1, 1, 2, 2100, 1, {2, 3}, {0, 1}, {1, 2}}, {1, 2, 9, 9, 2, {3, 3}, {20, 17}, {1, 1}}, {1, 1, 40, 40, 1, {2, 2}, {0, 0}, {37, 20}}};
    auto g = c.pick(gs); c.tell(g.str()); c.state(vp::hash_str(g.str())); conv(c, g, false);
}
static void bn(vp::Ctx& c, const Sh& s, float eps, int pat) {
    int C = s[1], pl = s.size() == 4 ? s[2] * s[3] : 1; ref::BN g{s[0], C, pl};
    Lay l = s.size() == 4 ? Lay::make(dw::BatchNorm2D(eps, 0.1f, "b"), {s}) : Lay::make(dw::BatchNorm1D(eps, 0.1f, "b"), {s});
    Vec gm = gen(C, [](size_t i) { return i % 3 == 0 ? 1.0 : i % 3 == 1 ? -2.0 : 0.5; }), bt = ints(C, 4, 3); setv(l.param("gamma"), gm); setv(l.param("beta"), bt);
    Vec x = gen(prod(s), [&](size_t i) { return pat ? scat(i, 31, 3) * (g.feat(i) % 2 ? 2.0 : 0.5) + g.feat(i) : double(scat(i, 32, 4)); });
    auto st = ref::bn_stats(g, x); double mn = 1e9; for (double v : st.var) mn = std::min(mn, v + eps);
    double amp = std::max(1.0, 1 / std::sqrt(mn));
    run(c, l, {s}, {x}, {[&](const Vec& go) { return ref::bn_gx(g, x, st, gm, eps, go); }}, s, 2e-5, 4e-6 * amp * (1 + g.cnt() * 0.02), prod(s) <= 40);
}
SCENARIO(bn1d, 2) { int n = c.range(1, 6), C = c.range(1, 9); float e = c.pick(std::vector<float>{0.25f, 1e-3f}); int p = c.choose(2); Sh s{n, C}; c.tell("BatchNorm1D ", sstr(s), " eps=", e); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), bits(e)), p)); bn(c, s, e, p); }
SCENARIO(bn2d, 3) { int n = c.range(1, 3), C = c.range(1, 4), h = c.range(1, 4), w = c.range(1, 4); float e = c.pick(std::vector<float>{0.25f, 1e-3f}); int p = c.choose(2); Sh s{n, C, h, w}; c.tell("BatchNorm2D ", sstr(s), " eps=", e); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), bits(e)), p)); bn(c, s, e, p); }
SCENARIO(bn_large, 1) { static const std::vector<Sh> S = {{64, 17}, {17, 64}, {33, 33}, {128, 3}, {4, 16, 7, 5}, {2, 33, 4, 4}, {9, 5, 8, 8}, {1, 3, 20, 20}, {300, 3}, {520, 1}, {4, 130}, {2, 1030}, {2, 300, 2, 2}, {260, 2, 1, 2}, {1, 2, 23, 24}, {2, 130, 1, 2}}; Sh s = c.pick(S); c.tell("BatchNorm ", sstr(s)); c.state(vp::hash_str(sstr(s))); if (s[0] < 500) bn(c, s, 0.25f, 0); bn(c, s, 0.25f, 1); }
static void gap(vp::Ctx& c, const Sh& s, bool units) {
    int pl = s[2] * s[3]; Lay l = Lay::make(dw::GlobalAvgPooling("g"), {s}); Vec x = ints(prod(s), 3, 9);
    run(c, l, {s}, {x}, {[&](const Vec& go) { D r(prod(s)); for (size_t i = 0; i < r.size(); ++i) r[i] = double(go[i / pl]) / pl; return r; }}, {s[0], s[1], 1, 1}, 4e-7, 2e-7, units);
}
SCENARIO(gap, 2) { Sh s{c.range(1, 4), c.range(1, 5), c.range(1, 6), c.range(1, 6)}; c.tell("GlobalAvgPooling ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 3)); gap(c, s, true); }
SCENARIO(gap_large, 1) { static const std::vector<Sh> S = {{1, 1, 32, 32}, {8, 64, 7, 7}, {1, 300, 1, 1}, {3, 17, 5, 33}, {64, 2, 9, 4}, {1, 3, 1, 1000}, {1, 2, 80, 80}, {2, 1, 300, 300}, {1, 2, 1, 70000}, {300, 3, 2, 1}, {1030, 2, 1, 2}, {2, 1030, 2, 1}, {260, 260, 1, 1}}; Sh s = c.pick(S); c.tell("GlobalAvgPooling ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 3)); gap(c, s, false); }
static void add(vp::Ctx& c, const Sh& s, bool units) {
    size_t n = prod(s);
    auto id = [](const Vec& go) { return dvec(go); };
    { Lay l = Lay::make(dw::Add("a"), {s, s}); run(c, l, {s, s}, {ints(n, 1, 9), ints(n, 2, 9)}, {id, id}, s, 0, 0, units); }
    // both inputs are the same tensor: both contributions arrive in the one gradient
    Lay l = Lay::make(dw::Add("a"), {s, s}); auto t = mk(s, ints(n, 3, 9)); auto y = l.forward({t, t}); Vec go = ints(n, 5, 9), g0 = ints(n, 6, 9); auto gi = mk(s, g0); auto tgo = mk(s, go);
    l.backward({t, t}, y, tgo, {gi, gi}); c.step(2);
    expect_vec(c, "grad of a doubly used input", vals(gi), gen(n, [&](size_t i) { return g0[i] + 2 * go[i]; })); expect_same(c, "grad_output", vals(tgo), go);
}
SCENARIO(add, 2) { int r = c.range(1, 4); Sh s(r); for (auto& d : s) d = c.range(1, r <= 2 ? 6 : 3); c.tell("Add ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 9)); add(c, s, true); }
SCENARIO(add_large, 1) { static const std::vector<int> N = {63, 64, 65, 100, 127, 128, 129, 1000, 1024, 4097, 70000, 131075, 1100003}; Sh s{c.pick(N)}; c.tell("Add ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 9)); add(c, s, false); }
// one layer, many passes over inputs of changing shapes and contents
struct Series { std::string name; Lay l; std::vector<Sh> in; std::function<Sh(const Sh&)> out; std::function<D(const Sh&, const Vec& x, const Vec& go)> ref; double rel, abs_; int ins; };
static Series series(int kind) {
    auto id = [](const Sh& s) { return s; };
    switch (kind) {
    case 0: { auto W = std::make_shared<Vec>(ints(12, 1, 7)); Lay l = Lay::make(dw::Linear(3, "l"), {{2, 4}}); setv(l.param("weight"), *W); return {"Linear(3)", l, {{2, 4}, {5, 4}, {1, 4}, {3, 2, 2}, {2, 1, 4, 1}}, [](const Sh& s) { return Sh{s[0], 3}; }, [W](const Sh& s, const Vec&, const Vec& go) { return ref::linear_gx(s[0], 4, 3, *W, go); }, 0, 0, 1}; }
    case 1: case 2: { ref::Geo g = kind == 1 ? ref::Geo{2, 2, 3, 5, 3, {2, 3}, {1, 0}, {1, 2}} : ref::Geo{1, 1, 4, 6, 2, {3, 3}, {1, 1}, {1, 1}}; auto W = std::make_shared<Vec>(ints(prod(g.wt()), 11, 5)); Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); setv(l.param("weight"), *W);
        auto at = [g](const Sh& s) { auto q = g; q.n = s[0]; q.h = s[2]; q.w = s[3]; return q; };
        return {"Convolution " + g.str(), l, kind == 1 ? std::vector<Sh>{{2, 2, 3, 5}, {1, 2, 3, 5}, {3, 2, 5, 3}, {2, 2, 7, 5}, {5, 2, 1, 3}} : std::vector<Sh>{{1, 1, 4, 6}, {1, 1, 6, 4}, {2, 1, 3, 4}, {3, 1, 2, 4}, {1, 1, 2, 2}}, [at](const Sh& s) { return at(s).out(); }, [at, W](const Sh& s, const Vec&, const Vec& go) { return ref::conv_gx(at(s), *W, go); }, 0, 0, 1}; }
    case 3: case 4: { bool two = kind == 4; Sh f = two ? Sh{2, 2, 2, 3} : Sh{4, 3}; int C = f[1]; Lay l = two ? Lay::make(dw::BatchNorm2D(0.25f, 0.1f, "b"), {f}) : Lay::make(dw::BatchNorm1D(0.25f, 0.1f, "b"), {f}); auto gm = std::make_shared<Vec>(gen(C, [](size_t i) { return i % 2 ? -2.0 : 1.5; })); setv(l.param("gamma"), *gm);
        return {two ? "BatchNorm2D" : "BatchNorm1D", l, two ? std::vector<Sh>{{2, 2, 2, 3}, {1, 2, 3, 4}, {3, 2, 3, 2}, {4, 2, 1, 1}} : std::vector<Sh>{{4, 3}, {2, 3}, {7, 3}, {5, 3}}, id, [C, gm](const Sh& s, const Vec& x, const Vec& go) { ref::BN g{s[0], C, s.size() == 4 ? s[2] * s[3] : 1}; return ref::bn_gx(g, x, ref::bn_stats(g, x), *gm, 0.25, go); }, 2e-5, 3e-5, 1}; }
    case 5: return {"GlobalAvgPooling", Lay::make(dw::GlobalAvgPooling("g"), {{2, 2, 2, 3}}), {{2, 2, 2, 3}, {1, 3, 4, 1}, {3, 1, 2, 2}, {1, 2, 1, 1}, {2, 2, 3, 2}}, [](const Sh& s) { return Sh{s[0], s[1], 1, 1}; }, [](const Sh& s, const Vec&, const Vec& go) { int pl = s[2] * s[3]; D r(prod(s)); for (size_t i = 0; i < r.size(); ++i) r[i] = double(go[i / pl]) / pl; return r; }, 4e-7, 2e-6, 1};
    default: return {"Add", Lay::make(dw::Add("a"), {{2, 3}, {2, 3}}), {{2, 3}, {3, 2}, {7}, {1, 2, 2, 2}, {4, 5}}, id, [](const Sh&, const Vec&, const Vec& go) { return dvec(go); }, 0, 0, 2};
    }
}
static void one(vp::Ctx& c, Series& q, Keep& k, const Sh& s, int d) {
    std::vector<Vec> xs, g0; std::vector<dw::Tensor> in, gi; for (int i = 0; i < q.ins; ++i) { xs.push_back(ints(prod(s), 20 + d * 3 + i, 6)); in.push_back(k("x" + std::to_string(i), s, xs[i])); g0.push_back(d % 2 ? Vec(prod(s), 0.f) : ints(prod(s), 70 + d + i, 6)); gi.push_back(k("gi" + std::to_string(i), s, g0[i])); }
    Sh os = q.out(s); std::vector<dw::Tensor> o{k("y", os, Vec(prod(os), NAN))}; q.l.impl->forward(in, o); Vec go = ints(prod(os), 5 + d, 9); auto tgo = k("go", os, go); Snap snap(q.l);
    if (d % 3) q.l.params_grad(in, tgo); q.l.backward(in, o[0], tgo, gi); c.step(2); snap.same(c, q.l); expect_same(c, "grad_output", vals(tgo), go);
    for (int i = 0; i < q.ins; ++i) { D e = q.ref(s, xs[0], go); for (size_t j = 0; j < e.size(); ++j) e[j] += g0[i][j]; double a = q.abs_; if (a > 0) a *= 10; expect_vec(c, "grad_input " + std::to_string(i), vals(gi[i]), e, q.rel, a); expect_same(c, "input", vals(in[i]), xs[i]); }
}
SCENARIO(calls, 3) {
    int kind = c.choose(7); Series q = series(kind); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = kind * 2 + k.on + 7777; c.tell(q.name, k.on ? " tensors overwritten in place" : "");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)q.in.size()); c.tell(sstr(q.in[i])); one(c, q, k, q.in[i], d * 7 + i); st = vp::mix(st, i); c.state(st); }
}
SCENARIO(long_run, 3) { int kind = c.choose(7); Series q = series(kind); int sc = c.choose(SCHEDULES); Keep k; k.on = c.flip(); int N = c.thorough() ? 30000 : 2100; c.tell(q.name, " ", N, " passes, schedule ", sc); for (int d = 0; d < N; ++d) { one(c, q, k, q.in[scheduled(sc, d, (int)q.in.size())], d); c.states_n(1); } }
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Linear","Convolution","BatchNorm","Add","GlobalAvgPooling"}, twins::GIN); }
static Series conv_series(const ref::Geo& g) { Vec W = ints(prod(g.wt()), 11, 5); Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "c"), {g.in()}); setv(l.param("weight"), W); return {"Convolution " + g.str(), l, {g.in()}, [g](const Sh&) { return g.out(); }, [g, W](const Sh&, const Vec&, const Vec& go) { return ref::conv_gx(g, W, go); }, 0, 0, 1}; }
static Series bn_series(float eps, bool two) { Sh f = two ? Sh{2, 2, 2, 3} : Sh{4, 3}; int C = f[1]; Lay l = two ? Lay::make(dw::BatchNorm2D(eps, 0.1f, "b"), {f}) : Lay::make(dw::BatchNorm1D(eps, 0.1f, "b"), {f}); Vec gm = gen(C, [](size_t i) { return i % 2 ? -2.0 : 1.5; }); setv(l.param("gamma"), gm);
    return {two ? "BatchNorm2D" : "BatchNorm1D", l, {f}, [](const Sh& s) { return s; }, [=](const Sh& s, const Vec& x, const Vec& go) { ref::BN g{s[0], C, two ? s[2] * s[3] : 1}; return ref::bn_gx(g, x, ref::bn_stats(g, x), gm, eps, go); }, 2e-5, 3e-5, 1}; }
// several layers that differ in one attribute, used in every order
SCENARIO(neighbours, 2) {
    int kind = c.choose(3), D = c.thorough() ? 4 : 3; std::vector<Series> v; uint64_t st = kind;
    if (kind < 2) for (auto& g : ref::neighbours(kind ? ref::Geo{2, 2, 5, 6, 2, {2, 2}, {1, 1}, {1, 1}} : ref::Geo{2, 1, 4, 5, 1, {1, 2}, {0, 0}, {2, 2}}, true)) v.push_back(conv_series(g));
    else for (float e : {0.25f, 1.f, 1e-3f}) for (int two = 0; two < 2; ++two) v.push_back(bn_series(e, two));
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(v[i].name, " ", sstr(v[i].in[0])); Keep none; one(c, v[i], none, v[i].in[0], d * 3 + 1); st = vp::mix(st, i); c.state(st); }
}
