// C08: BatchNorm train/eval state machine against a reference over every history.
#include "ref.hpp"
#include "twins.hpp"
namespace {
struct Cfg { bool two; float eps, alpha; int par; };
struct Machine {
    vp::Ctx& c; Cfg f; int C; Lay l; Keep keep; D rm, rv; Vec gamma, beta; bool train = true; bool can_bwd = false; ref::BN g; Vec x, y; dw::Tensor tx, ty;
    Machine(vp::Ctx& c, Cfg f, int C, const Sh& first) : c(c), f(f), C(C) {
        if (f.two) l = Lay::make(dw::BatchNorm2D(f.eps, f.alpha, "bn"), {first}); else l = Lay::make(dw::BatchNorm1D(f.eps, f.alpha, "bn"), {first});
        rm.assign(C, 0); rv.assign(C, 0); gamma.assign(C, 1); beta.assign(C, 0);
        if (f.par) { for (int i = 0; i < C; ++i) { gamma[i] = 0.5f + i; beta[i] = 2.f - 3 * i; } setv(l.param("gamma"), gamma); setv(l.param("beta"), beta); }
        if (f.par == 2) { for (int i = 0; i < C; ++i) { rm[i] = i - 1.5; rv[i] = 0.5 + i * 2; } setv(l.buffer("running_mean"), Vec(rm.begin(), rm.end())); setv(l.buffer("running_var"), Vec(rv.begin(), rv.end())); }
    }
    void mode(bool m) { train = m; l.train(m); c.tell(m ? "train" : "eval"); }
    static ref::BN geo(const Sh& s) { return {s[0], s[1], s.size() == 4 ? s[2] * s[3] : 1}; }
    void stats(const std::string& when, bool exact, const Vec& om, const Vec& ov) {
        Vec m = vals(l.buffer("running_mean")), v = vals(l.buffer("running_var"));
        if (exact) { expect_same(c, "running_mean in " + when, m, om); expect_same(c, "running_var in " + when, v, ov); }
        for (int i = 0; i < C; ++i) {
            if (!(std::fabs(m[i] - rm[i]) <= 2e-5 * slack() * (std::fabs(rm[i]) + scale(i)))) c.fail("running_mean[" + std::to_string(i) + "] after " + when + " = " + fstr(m[i]) + ", expected " + fstr(rm[i]));
            if (!(std::fabs(v[i] - rv[i]) <= slack() * (2e-5 * std::fabs(rv[i]) + 4e-6 * scale(i) * bsd[i] + 4e-12 * scale(i) * scale(i)))) c.fail("running_var[" + std::to_string(i) + "] after " + when + " = " + fstr(v[i]) + ", expected " + fstr(rv[i]));
            rm[i] = m[i]; rv[i] = v[i]; // continue from the rounded values
        }
    }
    double slack() const { return 1 + g.cnt() * 1e-3; } // order of summation is free
    D sc = D(C), bsd = D(C); double scale(int i) { return sc[i] ? sc[i] : 1; }
    void pass(const Sh& s, const Vec& in) {
        c.tell("forward ", sstr(s));
        for (int i = 0; i < C; ++i) sc[i] = 0; g = geo(s); for (size_t i = 0; i < in.size(); ++i) sc[g.feat(i)] = std::max(sc[g.feat(i)], std::fabs(double(in[i])));
        x = in; tx = keep("x", s, x);
        Vec om = vals(l.buffer("running_mean")), ov = vals(l.buffer("running_var"));
        ty = keep("y", s, Vec(x.size(), NAN)); std::vector<dw::Tensor> outs{ty}; l.impl->forward({tx}, outs); y = vals(ty); c.step();
        ref::BNS st; if (train) st = ref::bn_stats(g, x); else st = {rm, rv};
        for (int i = 0; i < C; ++i) bsd[i] = std::sqrt(st.var[i]);
        D r = ref::bn(g, x, st, gamma, beta, f.eps);
        for (size_t i = 0; i < r.size(); ++i) {
            int q = g.feat(i); double sd = std::sqrt(st.var[q] + f.eps);
            double tol = slack() * 3e-6 * (std::fabs(gamma[q]) * (scale(q) + std::fabs(st.mean[q])) / sd + std::fabs(beta[q])) + 1e-6;
            if (!(std::fabs(y[i] - r[i]) <= tol)) c.fail(std::string(train ? "train" : "eval") + " output[" + std::to_string(i) + "] = " + fstr(y[i]) + ", expected " + fstr(r[i]));
        }
        if (train) for (int i = 0; i < C; ++i) { rm[i] = double(f.alpha) * rm[i] + (1 - double(f.alpha)) * st.mean[i]; rv[i] = double(f.alpha) * rv[i] + (1 - double(f.alpha)) * st.var[i]; }
        stats(train ? "train pass" : "eval pass", !train, om, ov);
        expect_same(c, "input", vals(tx), x); expect_same(c, "gamma", vals(l.param("gamma")), gamma); expect_same(c, "beta", vals(l.param("beta")), beta);
        can_bwd = train; state();
    }
    void bwd() {
        if (!can_bwd) throw vp::Skip{};
        c.tell("backward");
        Vec om = vals(l.buffer("running_mean")), ov = vals(l.buffer("running_var"));
        Vec go = ints(x.size(), 9, 3); auto tgo = keep("go", tx.shape(), go); auto tgi = keep("gi", tx.shape(), Vec(x.size(), 0.f));
        l.params_grad({tx}, tgo); l.backward({tx}, ty, tgo, {tgi}); c.step();
        stats("backward", true, om, ov); expect_same(c, "gamma", vals(l.param("gamma")), gamma); expect_same(c, "beta", vals(l.param("beta")), beta); expect_same(c, "output", vals(ty), y); expect_same(c, "input", vals(tx), x);
        state();
    }
    void state() { uint64_t k = vp::mix(f.two, train); k = vp::mix(k, bits(f.alpha)); k = vp::mix(k, bits(f.eps)); for (double d : rm) k = vp::mix(k, bits(float(d))); for (double d : rv) k = vp::mix(k, bits(float(d))); for (int d : tx.shape()) k = vp::mix(k, d); c.state(k); }
};
const std::vector<Cfg>& cfgs(bool two) { static std::vector<Cfg> a, b; if (a.empty()) for (int t = 0; t < 2; ++t) for (float eps : {1e-5f, 0.25f}) for (float al : {0.1f, 0.f, 0.75f, 1.f}) for (int p = 0; p < 3; ++p) (t ? b : a).push_back({t == 1, eps, al, p}); if (a.size() == 24) for (int t = 0; t < 2; ++t) for (int p = 0; p < 3; ++p) (t ? b : a).push_back({t == 1, 1e-9f, p ? 0.1f : 0.75f, p}); return two ? b : a; }
}
static void history(vp::Ctx& c, bool two, const std::vector<Sh>& shapes, int C) {
    Cfg f = c.pick(cfgs(two));
    c.tell(two ? "BatchNorm2D" : "BatchNorm1D", " eps=", f.eps, " alpha=", f.alpha, " params=", f.par);
    Machine m(c, f, C, shapes[0]);
    int D = c.thorough() ? 6 : 4, B = int(shapes.size()); m.keep.on = f.par == 1; if (m.keep.on) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) {
        int op = c.choose(2 * B + 1);
        if (op == 2 * B) { m.bwd(); continue; }
        bool tr = op < B; if (tr != m.train) m.mode(tr);
        const Sh& s = shapes[op % B];
        m.pass(s, ints(prod(s), 40 + op, 6));
    }
}
// gamma and beta flagged differently: no mode, so the pass is rejected and leaves no trace
SCENARIO(mixed_flags, 3) {
    bool two = c.flip(); Cfg f = c.pick(cfgs(two)); std::vector<Sh> shapes; if (two) shapes = {{2, 2, 2, 3}, {1, 2, 1, 1}}; else shapes = {{3, 2}, {1, 2}}; Machine m(c, f, 2, shapes[0]); int D = c.thorough() ? 5 : 4;
    for (int d = 0; d < D; ++d) {
        int op = c.choose(6); const Sh& s = shapes[op % 2]; if (op < 4) { bool tr = op < 2; if (tr != m.train) m.mode(tr); m.pass(s, ints(prod(s), 40 + op, 6)); continue; }
        auto ps = m.l.info.params(); bool g = op == 4; ps.at("gamma").train(g); ps.at("beta").train(!g); c.tell("pass with only ", g ? "gamma" : "beta", " trainable"); auto x = mk(s, ints(prod(s), 90, 6)), y = mk(s, Vec(prod(s), 5.f)); Vec om = vals(m.l.buffer("running_mean")), ov = vals(m.l.buffer("running_var")); std::vector<dw::Tensor> out{y};
        c.check(throws([&] { m.l.impl->forward({x}, out); }), "a pass with gamma and beta flagged differently was accepted"); c.step(); expect_same(c, "running_mean", vals(m.l.buffer("running_mean")), om); expect_same(c, "running_var", vals(m.l.buffer("running_var")), ov); expect_same(c, "output", vals(y), Vec(prod(s), 5.f)); ps.at("gamma").train(m.train); ps.at("beta").train(m.train); m.can_bwd = false; m.state();
    }
}
SCENARIO(history_1d, 2) { history(c, false, {{3, 3}, {1, 3}, {5, 3}}, 3); }
SCENARIO(history_2d, 2) { history(c, true, {{2, 2, 2, 3}, {1, 2, 3, 4}, {4, 2, 3, 1}, {1, 2, 1, 1}}, 2); }
// every batch/feature count around the vector width, single passes in both modes
SCENARIO(grid_1d, 2) {
    int n = c.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 64}), C = c.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 33}); Cfg f = c.pick(cfgs(false)); int pat = c.choose(4);
    c.tell("n=", n, " C=", C, " eps=", f.eps, " alpha=", f.alpha, " pattern ", pat);
    Machine m(c, f, C, {n, C});
    auto data = [&](int salt) { return gen(size_t(n) * C, [&](size_t i) -> double { int q = int(i % C); return pat == 0 ? scat(i, salt, 6) : pat == 1 ? scat(i, salt, 6) * (q % 2 ? 64.0 : 0.125) : pat == 2 ? (q % 3 == 0 ? 2.5 : scat(i, salt, 3) + 4) : scat(i, salt, 2) + (q % 2 ? 4096.0 : -1024.0); }); };
    m.pass({n, C}, data(1)); m.pass({n, C}, data(2)); m.bwd(); m.mode(false); m.pass({n, C}, data(3)); m.pass({n, C}, data(1)); m.mode(true); m.pass({n, C}, data(3));
}
SCENARIO(grid_2d, 2) {
    int n = c.pick(std::vector<int>{1, 2, 3, 5}), C = c.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 9, 17}), h = c.pick(std::vector<int>{1, 2, 3, 5}), w = c.pick(std::vector<int>{1, 2, 4, 7}); int fi = c.choose(6); Cfg f = cfgs(true)[fi == 5 ? 25 : fi * 4 + 1]; int pat = c.choose(3);
    Sh s{n, C, h, w}; c.tell(sstr(s), " eps=", f.eps, " alpha=", f.alpha, " pattern ", pat);
    Machine m(c, f, C, s);
    int pl = h * w;
    auto data = [&](int salt) { return gen(prod(s), [&](size_t i) -> double { int q = int(i / pl) % C; return pat == 0 ? scat(i, salt, 6) : pat == 1 ? scat(i, salt, 6) * (q % 2 ? 64.0 : 0.125) : scat(i, salt, 2) + (q % 2 ? 4096.0 : -1024.0); }); };
    m.pass(s, data(1)); m.bwd(); m.mode(false); m.pass(s, data(3)); m.mode(true); m.pass(s, data(2));
}
// sizes beyond plausible thresholds
SCENARIO(large, 2) {
    static const std::vector<Sh> S = {{300, 3}, {1030, 2}, {2500, 1}, {5, 70}, {4, 130}, {3, 300}, {2, 1030}, {1, 260}, {2, 70, 1, 1}, {1, 70, 1, 1}, {2, 70, 2, 3}, {1, 300, 2, 2}, {300, 3, 2, 2}, {2, 3, 40, 40}, {1, 2, 100, 90}, {1030, 2, 1, 1}, {2, 130, 1, 2}, {1, 1, 260, 255}};
    Sh s = c.pick(S); bool two = s.size() == 4; Cfg f = c.pick(std::vector<Cfg>{{two, 1e-5f, 0.1f, 1}, {two, 0.25f, 0.75f, 2}}); int C = s[1], pl = two ? s[2] * s[3] : 1; c.tell(sstr(s), " eps=", f.eps, " alpha=", f.alpha);
    Machine m(c, f, C, s); Sh s2 = s; s2[0] += 1;
    auto data = [&](const Sh& q, int salt) { return gen(prod(q), [&](size_t i) -> double { return scat(i, salt, 6) + int(i / pl) % C % 5; }); };
    m.pass(s, data(s, 1)); m.bwd(); m.mode(false); m.pass(s, data(s, 3)); m.pass(s2, data(s2, 4)); m.mode(true); m.pass(s2, data(s2, 2)); m.bwd();
}
// many hundred passes in both modes on one layer, tensors overwritten in place or not
SCENARIO(long_run, 3) {
    bool two = c.flip(); Cfg f = c.pick(std::vector<Cfg>{{two, 1e-5f, 0.1f, 1}, {two, 0.25f, 0.75f, 2}, {two, 1e-3f, 0.99f, 0}}); static const std::vector<Sh> S1 = {{3, 3}, {1, 3}, {5, 3}, {2, 3}}, S2 = {{2, 2, 2, 3}, {1, 2, 3, 4}, {4, 2, 3, 1}, {1, 2, 1, 1}}; auto& S = two ? S2 : S1; int sc = c.choose(SCHEDULES), mode = c.choose(4); Machine m(c, f, two ? 2 : 3, S[0]); m.keep.on = c.flip(); int N = c.thorough() ? 20000 : 2100; bool told = c.m_tell; c.tell(two ? "BatchNorm2D" : "BatchNorm1D", " eps=", f.eps, " alpha=", f.alpha, " ", N, " passes, schedule ", sc, ", ", mode == 0 ? "always training" : mode == 1 ? "every fifth in evaluation" : mode == 2 ? "stretches of 300 in each mode" : "every seventh in training"); c.m_tell = false;
    for (int d = 0; d < N; ++d) { bool tr = mode == 0 || (mode == 1 ? d % 5 != 4 : mode == 2 ? d / 300 % 2 == 0 : d % 7 == 0); if (tr != m.train) m.mode(tr); auto& s = S[scheduled(sc, d, 4)]; m.pass(s, ints(prod(s), 40 + d, 6)); if (tr && d % 2) m.bwd(); }
    c.m_tell = told;
}
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"BatchNorm"}, twins::OUT | twins::BUF); }
// several layers with different eps and alpha, used in every order and mode
SCENARIO(neighbours, 2) {
    bool two = c.flip(); Sh s = two ? Sh{2, 2, 2, 3} : Sh{4, 2}; std::vector<Machine> m; for (float e : {0.25f, 1e-3f}) for (float a : {0.5f, 0.f, 0.9f}) m.emplace_back(c, Cfg{two, e, a, a > 0}, 2, s); int D = c.thorough() ? 5 : 3; uint64_t st = two;
    for (int d = 0; d < D; ++d) { int i = c.choose((int)m.size()), tr = c.choose(2); c.tell("layer ", i, ": "); if (bool(tr) != m[i].train) m[i].mode(tr); m[i].pass(s, ints(prod(s), 40 + d, 6)); if (tr && d % 2) m[i].bwd(); st = vp::mix(vp::mix(st, i), tr); c.state(st); }
}
