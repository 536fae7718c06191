// C17: purity of evaluation mode and completeness of mode switching, over every history.
#include "draws.hpp"
#include "zoo.hpp"
#include <deepworks/optimizer.hpp>
#include <unistd.h>
namespace {
enum K { LIN, RELU, BN1, BN2, DROP, CONV, GAP, ADDP, SIG, POOL };
struct L { K k; std::string name; float p = 0; float eps = 0, alpha = 0; }; // ADDP adds the input of the previous layer
struct Spec { std::string desc; Sh in; std::vector<L> ls; };
const std::vector<Spec>& specs() {
    static std::vector<Spec> v;
    if (v.empty()) {
        v.push_back({"Linear-BatchNorm1D-ReLU-Dropout-Linear", {3, 4}, {{LIN, "fc"}, {BN1, "bn", 0, 0.25f, 0.5f}, {RELU, "act"}, {DROP, "drop", 0.5f}, {LIN, "head"}}});
        v.push_back({"Convolution-BatchNorm2D-ReLU-MaxPooling-Dropout-GlobalAvgPooling-Linear-BatchNorm1D", {2, 2, 4, 3}, {{CONV, "conv"}, {BN2, "bn", 0, 0.125f, 0.75f}, {RELU, "act"}, {POOL, "pool"}, {DROP, "drop", 0.25f}, {GAP, "gap"}, {LIN, "head"}, {BN1, "bn2", 0, 0.5f, 0.25f}}});
        v.push_back({"Dropout-BatchNorm1D-BatchNorm1D-residual-Dropout (no names)", {3, 4}, {{DROP, "", 0.25f}, {BN1, "", 0, 0.25f, 0.5f}, {BN1, "", 0, 0.5f, 0.9f}, {ADDP, ""}, {DROP, "", 0.5f}}});
        v.push_back({"BatchNorm2D-Dropout-Sigmoid", {2, 2, 2, 2}, {{BN2, "a", 0, 0.25f, 0.f}, {DROP, "b", 0.f}, {SIG, "c"}}});
    }
    return v;
}
struct Run {
    vp::Ctx& c; const Spec& s; dw::Model m; std::vector<std::string> names; std::vector<Sh> sh; bool mode = true, can_bwd = false; uint32_t pattern = draws::HIGH; std::string path; bool frozen_all = false; dw::Tensor tx, ty;
    std::shared_ptr<dw::optimizer::SGD> sgd; std::shared_ptr<dw::optimizer::SGDMomentum> mom; std::shared_ptr<dw::optimizer::Adam> adam; int okind; std::map<std::string, Vec> snap;
    Run(vp::Ctx& c, const Spec& s, int okind, bool fresh = false) : c(c), s(s), okind(okind) {
        path = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/m" + std::to_string(getpid());
        draws::set([](uint64_t k) { return uint32_t(vp::mix(3, k) >> 16); });
        dw::Placeholder in(s.in), x = in, prev = in; sh.push_back(s.in); std::vector<dw::Placeholder> vs{in};
        for (auto& l : s.ls) { dw::Placeholder y; auto& n = l.name; switch (l.k) { case LIN: y = dw::Linear(3, n)(x); break; case RELU: y = dw::ReLU(n)(x); break; case BN1: y = dw::BatchNorm1D(l.eps, l.alpha, n)(x); break; case BN2: y = dw::BatchNorm2D(l.eps, l.alpha, n)(x); break; case DROP: y = dw::Dropout(l.p, n)(x); break; case CONV: y = dw::Convolution(2, {3, 3}, {1, 1}, {1, 1}, n)(x); break; case GAP: y = dw::GlobalAvgPooling(n)(x); break; case ADDP: y = dw::Add(n)(x, prev); break; case SIG: y = dw::Sigmoid(n)(x); break; case POOL: y = dw::MaxPooling({2, 2}, {0, 0}, {2, 1}, n)(x); break; } prev = x; x = y; vs.push_back(x); sh.push_back(x.shape()); }
        m = dw::Model(in, x); // names of unnamed layers come from the model
        for (size_t i = 0; i < s.ls.size(); ++i) { std::string f; for (auto& l : m.layers()) if (l.outputs().size() == 1 && l.outputs()[0].m_impl == vs[i + 1].m_impl) f = l.name(); c.check(!f.empty(), "layer " + std::to_string(i) + " is not in the model"); names.push_back(f); }
        if (!fresh) zoo::randomize(m, 5); attach();
    }
    void attach() { m.compile(); sgd.reset(); mom.reset(); adam.reset(); if (okind == 0) sgd = std::make_shared<dw::optimizer::SGD>(m.params(), 0.125f); else if (okind == 1) mom = std::make_shared<dw::optimizer::SGDMomentum>(m.params(), 0.125f, 0.5f); else adam = std::make_shared<dw::optimizer::Adam>(m.params(), 0.125f); can_bwd = false; }
    Vec par(size_t i, const char* n) { return vals(m.state().at(names[i] + "." + n)); }
    void take() { snap.clear(); for (auto& kv : m.state()) snap[kv.first] = vals(kv.second); }
    void unchanged(const std::string& when, bool masks_too) { c.check(snap.size() == m.state().size(), "state entries after " + when); for (auto& kv : m.state()) { if (!masks_too && kv.first.find(".mask") != std::string::npos) continue; expect_same(c, kv.first + " in " + when, vals(kv.second), snap.at(kv.first)); } }
    D reference(const Vec& x0, bool train, std::map<std::string, D>* running) {
        D x = dvec(x0), prev = x;
        for (size_t i = 0; i < s.ls.size(); ++i) { auto& l = s.ls[i]; D y; const Sh &si = sh[i], &so = sh[i + 1]; switch (l.k) {
            case LIN: { int f = int(prod(si)) / si[0]; y = D(si[0] * 3); Vec W = par(i, "weight"), b = par(i, "bias"); for (int a = 0; a < si[0]; ++a) for (int u = 0; u < 3; ++u) { double q = b[u]; for (int k = 0; k < f; ++k) q += x[a * f + k] * W[u * f + k]; y[a * 3 + u] = q; } break; }
            case RELU: y = x; for (auto& e : y) e = std::max(e, 0.0); break;
            case SIG: y = x; for (auto& e : y) e = 1 / (1 + std::exp(-e)); break;
            case BN1: case BN2: { ref::BN g{si[0], si[1], l.k == BN2 ? si[2] * si[3] : 1}; Vec rm = par(i, "running_mean"), rv = par(i, "running_var"); ref::BNS st; if (train) { st = ref::bn_stats(g, x); D nm(g.c), nv(g.c); for (int k = 0; k < g.c; ++k) { nm[k] = l.alpha * double(rm[k]) + (1 - double(l.alpha)) * st.mean[k]; nv[k] = l.alpha * double(rv[k]) + (1 - double(l.alpha)) * st.var[k]; } (*running)[names[i] + ".running_mean"] = nm; (*running)[names[i] + ".running_var"] = nv; } else st = {dvec(rm), dvec(rv)}; y = ref::bn(g, x, st, par(i, "gamma"), par(i, "beta"), l.eps); break; }
            case DROP: y = x; if (train) for (auto& e : y) e = l.p > 0 && pattern == draws::LOW ? 0.0 : e / (1 - double(l.p)); break;
            case CONV: { ref::Geo g{si[0], si[1], si[2], si[3], 2, {3, 3}, {1, 1}, {1, 1}}; Vec W = par(i, "weight"), b = par(i, "bias"); y = D(prod(so)); int pl = g.oh() * g.ow(); for (size_t e = 0; e < y.size(); ++e) y[e] = b[(e / pl) % 2]; ref::taps(g, [&](int o, int wi, int xi) { y[o] += double(W[wi]) * x[xi]; }); break; }
            case GAP: { int pl = si[2] * si[3]; y = D(si[0] * si[1]); for (size_t e = 0; e < x.size(); ++e) y[e / pl] += x[e] / pl; break; }
            case POOL: { y = D(prod(so)); for (int a = 0; a < so[0] * so[1]; ++a) for (int r = 0; r < so[2]; ++r) for (int q = 0; q < so[3]; ++q) { double best = -INFINITY; for (int i2 = 0; i2 < 2; ++i2) for (int j = 0; j < 2; ++j) best = std::max(best, x[(a * si[2] + r * 2 + i2) * si[3] + q + j]); y[(a * so[2] + r) * so[3] + q] = best; } break; }
            case ADDP: y = x; for (size_t e = 0; e < y.size(); ++e) y[e] += prev[e]; break; }
            prev = x; x = y; }
        return x;
    }
    Vec input(int which) { return gen(prod(s.in), [&](size_t i) { return scat(i, 60 + which, 4) * 0.75 + (which ? 1.0 : 0.0); }); }
    void forward(int which, uint32_t pat) {
        c.tell("forward ", which, mode ? (pat == draws::LOW ? " (all drawn low)" : " (all drawn high)") : "");
        Vec x = input(which); tx = mk(s.in, x); ty = mk(sh.back(), Vec(prod(sh.back()), NAN)); pattern = pat; draws::set([pat](uint64_t) { return pat; }); take(); std::map<std::string, D> run; D e = reference(x, mode, &run);
        m.forward(tx, ty); c.step(); expect_same(c, "input", vals(tx), x);
        double scale = 1; for (double d : e) scale = std::max(scale, std::fabs(d));
        expect_vec(c, mode ? "training output" : "evaluation output", vals(ty), e, 1e-4, 1e-4 * scale);
        if (!mode) { unchanged("an evaluation forward pass", true); c.check(draws::count() == 0, "evaluation mode drew random numbers"); Vec y1 = vals(ty); dw::Tensor t2 = mk(sh.back(), Vec(prod(sh.back()), 7)); draws::set([](uint64_t k) { return k % 2 ? draws::LOW : draws::HIGH; }); m.forward(tx, t2); c.step(); expect_same(c, "repeated evaluation output", vals(t2), y1); unchanged("a repeated evaluation pass", true); }
        else { for (auto& kv : m.state()) { auto it = run.find(kv.first); if (it != run.end()) { double sc = 1; for (double d : it->second) sc = std::max(sc, std::fabs(d)); expect_vec(c, kv.first + " after a training pass", vals(kv.second), it->second, 1e-4, 1e-4 * sc); } else if (kv.first.find(".mask") == std::string::npos) expect_same(c, kv.first + " in a training pass", vals(kv.second), snap.at(kv.first)); } }
        can_bwd = mode;
    }
    void backward() { if (!can_bwd) throw vp::Skip{}; c.tell("backward"); take(); Vec x = vals(tx), y = vals(ty), g = ints(ty.total(), 71, 3); auto tg = mk(ty.shape(), g); m.backward(tx, ty, tg); c.step(); unchanged("backward", true); expect_same(c, "input", vals(tx), x); expect_same(c, "output", vals(ty), y); }
    void opt() { c.tell("optimizer step"); take(); if (sgd) sgd->step(); if (mom) mom->step(); if (adam) adam->step(); c.step(); if (!mode) unchanged("an optimizer step in evaluation mode", true); else { // running statistics are not parameters
            for (auto& kv : m.state()) if (kv.first.find("running_") != std::string::npos) expect_same(c, kv.first + " in an optimizer step", vals(kv.second), snap.at(kv.first));
            for (auto& kv : m.params()) { Vec g = vals(kv.second.grad()), a = vals(kv.second.data()); if (sgd) for (size_t i = 0; i < a.size(); ++i) { double e = double(snap.at(kv.first)[i]) - 0.125 * g[i]; if (!close(a[i], e, 1e-5, 1e-5)) c.fail(kv.first + "[" + std::to_string(i) + "] after a training step = " + fstr(a[i]) + ", expected " + fstr(e)); } else { bool nz = false, ch = !same_bits(a, snap.at(kv.first)); for (float f : g) nz |= std::fabs(f) > 1e-2; if (nz && !ch) c.fail(kv.first + " was not updated by a training step"); } } } }
    void train(bool b) { c.tell(b ? "train(true)" : "train(false)"); take(); m.train(b); mode = b; can_bwd = can_bwd && b; unchanged("train()", true); for (auto& kv : m.params()) c.check(kv.second.is_trainable() == b, kv.first + " is not switched"); for (auto& l : m.layers()) for (auto& kv : l.params()) c.check(kv.second.is_trainable() == b, l.name() + "." + kv.first + " of the layer is not switched"); }
    void reload() { c.tell("save+load"); take(); dw::save(m, path); unchanged("save", true); m = dw::load(path); unlink(path.c_str()); c.step(2); unchanged("save and load", true); mode = true; for (auto& kv : m.params()) c.check(kv.second.is_trainable(), kv.first + " of a loaded model is frozen"); attach(); }
    void recompile() { c.tell("compile"); attach(); }
};
}
static void history(vp::Ctx& c, int D, int ops, bool fresh = false) {
    const Spec& s = c.pick(specs()); int ok = c.choose(3); c.tell(s.desc, " optimizer ", ok, fresh ? " freshly built" : ""); Run r(c, s, ok, fresh); uint64_t st = vp::mix(vp::hash_str(s.desc), ok + 8 * fresh);
    for (int d = 0; d < D; ++d) {
        int op = c.choose(ops);
        switch (op) { case 0: if (r.mode) throw vp::Skip{}; r.train(true); break; case 1: if (!r.mode) throw vp::Skip{}; r.train(false); break; case 2: r.forward(0, draws::HIGH); break; case 3: r.backward(); break; case 4: r.opt(); break; case 5: r.reload(); break; case 6: r.forward(1, r.mode ? draws::LOW : draws::HIGH); break; case 7: r.recompile(); break; }
        st = vp::mix(st, op); c.state(st);
    }
    r.train(false); r.forward(1, draws::HIGH); r.train(true); r.forward(0, draws::HIGH); r.backward(); r.opt();
}
SCENARIO(histories, 4) { history(c, c.thorough() ? 6 : 4, 8); }
SCENARIO(fresh_histories, 4) { history(c, c.thorough() ? 5 : 3, 8, true); } // a model as it is built: initial values everywhere
// longer ones over the core operations
SCENARIO(long_histories, 5) { history(c, c.thorough() ? 8 : 6, 5); }
// switching a model of every layer type: flags of every parameter, evaluation output without noise
SCENARIO(zoo_switch, 2) {
    auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, false); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); dw::Model m(n.in, n.out); m.compile(); zoo::randomize(m, 5);
    std::string path = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/z" + std::to_string(getpid());
    for (int r = 0; r < 2; ++r) {
        draws::set([](uint64_t k) { return uint32_t(vp::mix(9, k) >> 13); });
        m.train(false); for (auto& kv : m.params()) c.check(!kv.second.is_trainable(), kv.first + " not switched off");
        Vec x = ints(prod(n.is), 7, 4); dw::Tensor tx = mk(n.is, x), y1(n.os), y2(n.os); std::map<std::string, Vec> st; for (auto& kv : m.state()) st[kv.first] = vals(kv.second); draws::set([](uint64_t) { return draws::LOW; }); m.forward(tx, y1); m.forward(tx, y2); c.step(2); c.check(draws::count() == 0, "evaluation mode drew random numbers"); expect_same(c, "repeated output", vals(y2), vals(y1)); for (auto& kv : m.state()) expect_same(c, kv.first, vals(kv.second), st.at(kv.first));
        if (r == 0) { Vec e = zoo::compose(n, m, x, false); expect_vec(c, "evaluation output", vals(y1), e, 1e-5, 1e-5); }
        m.train(true); for (auto& kv : m.params()) c.check(kv.second.is_trainable(), kv.first + " not switched on"); dw::Tensor y3(n.os); draws::set([](uint64_t) { return draws::LOW; }); m.forward(tx, y3); c.step(); size_t nd = 0; for (size_t i = 0; i < n.its.size(); ++i) if (n.its[i]->type == "Dropout") nd += prod(n.vals[i].shape()); c.check(draws::count() >= nd && (nd || draws::count() == 0), "dropout does not draw after train(true)");
        dw::save(m, path); m = dw::load(path); unlink(path.c_str()); m.compile();
    }
}
// a model whose parameters were frozen or unfrozen one by one, in every combination, is switched as a whole
SCENARIO(individual_flags, 3) {
    const Spec& s = c.pick(specs()); bool via_layer = c.flip(), to = c.flip(); Run r(c, s, 0);
    std::vector<std::string> keys; for (auto& kv : r.m.params()) keys.push_back(kv.first); std::sort(keys.begin(), keys.end());
    int set = c.choose(1 << keys.size()); c.tell(s.desc, " frozen set ", set, via_layer ? " through the layers" : " through params()", to ? " train(true)" : " train(false)");
    c.state(vp::mix(vp::mix(vp::hash_str(s.desc), set), via_layer * 2 + to));
    std::map<std::string, bool> want; for (size_t i = 0; i < keys.size(); ++i) want[keys[i]] = !((set >> i) & 1);
    if (via_layer) { for (auto& l : r.m.layers()) for (auto& kv : l.params()) { dw::Parameter p = kv.second; p.train(want.at(l.name() + "." + kv.first)); } }
    else for (auto& kv : r.m.params()) kv.second.train(want.at(kv.first));
    for (auto& kv : r.m.params()) c.check(kv.second.is_trainable() == want.at(kv.first), kv.first + " does not have the flag given to it");
    r.train(to); r.forward(0, draws::HIGH); r.opt(); if (!to) { r.train(true); r.forward(1, draws::HIGH); }
}
