// Optimizer histories in lock-step with the recurrences in double precision.
#pragma once
#include "dwh.hpp"
#include <deepworks/optimizer.hpp>
#include <map>
namespace optim {
using D = std::vector<double>;
struct Cfg { int kind; float lr, gamma, b1, b2, eps; size_t t0; bool defaults; std::string str() const { std::ostringstream o; if (kind == 0) o << "SGD lr=" << lr; else if (kind == 1) o << "SGDMomentum lr=" << lr << " gamma=" << gamma; else o << "Adam lr=" << lr << " betas=" << b1 << "," << b2 << " eps=" << eps << " from=" << t0; return o.str() + (defaults ? " (default arguments)" : ""); } };
struct Opt { std::function<void()> step; std::function<void(float)> set_lr; std::function<float()> get_lr; };
template <typename T> Opt wrap(std::shared_ptr<T> p) { return {[p] { p->step(); }, [p](float v) { p->set_lr(v); }, [p] { return p->get_lr(); }}; }
inline Opt make(dw::ParamMap& pm, const Cfg& k) {
    using namespace dw::optimizer;
    if (k.kind == 0) return wrap(std::make_shared<SGD>(pm, k.lr));
    if (k.kind == 1) return wrap(k.defaults ? std::make_shared<SGDMomentum>(pm, k.lr) : std::make_shared<SGDMomentum>(pm, k.lr, k.gamma));
    return wrap(k.defaults ? std::make_shared<Adam>(pm, k.lr) : std::make_shared<Adam>(pm, k.lr, std::array<float, 2>{k.b1, k.b2}, k.eps, k.t0));
}
struct RefP { D w, v, m; bool train = true; };
struct Sys {
    vp::Ctx& c; Cfg k; dw::ParamMap pm; Opt o; std::map<std::string, RefP> r; std::map<std::string, Vec> g; std::map<std::string, double> hi; double lr; float lrf; size_t t; uint64_t st; bool exact;
    Sys(vp::Ctx& c, const Cfg& k, const std::vector<std::pair<std::string, Sh>>& ps, bool exact) : c(c), k(k), exact(exact) {
        int i = 0; st = vp::hash_str(k.str());
        for (auto& p : ps) { Vec w = ints(prod(p.second), 40 + i++, 9); pm.emplace(p.first, dw::Parameter(mk(p.second, w))); r[p.first].w = D(w.begin(), w.end()); r[p.first].v = r[p.first].m = D(w.size()); g[p.first] = Vec(w.size(), 0.f); st = vp::mix(st, vp::hash_str(p.first + sstr(p.second))); }
        o = make(pm, k); lrf = k.lr; lr = k.lr; t = k.kind == 2 && !k.defaults ? k.t0 : 0; verify();
    }
    void grad(const std::string& n, int pat) { size_t m = g[n].size(); Vec v = pat == 0 ? ints(m, 3 + m, 7) : pat == 1 ? Vec(m, 0.f) : pat == 2 ? gen(m, [](size_t i) { return i % 2 ? -4.0 : 2.5; }) : pat == 4 ? gen(m, [&](size_t i) { return i == 0 || i + 1 == m ? 0.0 : 3.0; }) : gen(m, [](size_t i) { return i % 3 ? 1e-3 : -96.0; }); g[n] = v; setv(pm.at(n).grad(), v); }
    void set_lr(float v) { o.set_lr(v); lr = lrf = v; }
    void freeze(const std::string& n) { r[n].train = !r[n].train; pm.at(n).train(r[n].train); }
    void write(const std::string& n) { Vec w = ints(r[n].w.size(), 77, 5); setv(pm.at(n).data(), w); r[n].w = D(w.begin(), w.end()); }
    void step() {
        o.step(); c.step(); ++t; double b1 = k.b1, b2 = k.b2;
        for (auto& kv : r) if (kv.second.train) { RefP& p = kv.second; auto& G = g[kv.first];
            for (size_t i = 0; i < p.w.size(); ++i) {
                double q = G[i];
                if (k.kind == 0) p.w[i] -= lr * q;
                else if (k.kind == 1) { p.v[i] = double(k.gamma) * p.v[i] + lr * q; p.w[i] -= p.v[i]; }
                else { p.m[i] = b1 * p.m[i] + (1 - b1) * q; p.v[i] = b2 * p.v[i] + (1 - b2) * q * q; p.w[i] -= lr * (p.m[i] / (1 - std::pow(b1, double(t)))) / (std::sqrt(p.v[i] / (1 - std::pow(b2, double(t)))) + double(k.eps)); }
            } }
    }
    void verify() {
        c.check(bits(o.get_lr()) == bits(lrf), "get_lr returns " + fstr(o.get_lr()) + ", last set " + fstr(lrf));
        c.check(pm.size() == r.size(), "number of parameters changed");
        for (auto& kv : r) {
            auto& p = pm.at(kv.first); double mag = 1; for (double w : kv.second.w) mag = std::max(mag, std::fabs(w));
            if (exact) expect_vec(c, "parameter " + kv.first, vals(p.data()), kv.second.w); else expect_vec(c, "parameter " + kv.first, vals(p.data()), kv.second.w, 1e-6, 2e-5 * lr + 1e-6 * mag);
            expect_same(c, "gradient of " + kv.first, vals(p.grad()), g[kv.first]); c.check(p.is_trainable() == kv.second.train, "trainable flag of " + kv.first + " changed");
        }
    }
};
inline void history(vp::Ctx& c, const Cfg& k, const std::vector<std::pair<std::string, Sh>>& ps, int depth, bool exact) {
    Sys s(c, k, ps, exact); c.tell(k.str()); const std::string &a = ps[0].first, &b = ps[1].first;
    static const char* N[] = {"step", "grad A ints", "grad A zero", "grad B ints", "grad B mixed", "set_lr 0.25", "set_lr 2", "toggle freeze A", "toggle freeze B", "user writes A", "set_lr 0", "grad A zero at the ends"};
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(d + 1 == depth ? 1 : 12); c.tell(N[op]);
        switch (op) { case 0: s.step(); break; case 1: s.grad(a, 0); break; case 2: s.grad(a, 1); break; case 3: s.grad(b, 0); break; case 4: s.grad(b, 2); break; case 5: s.set_lr(0.25f); break; case 6: s.set_lr(2.f); break; case 7: s.freeze(a); break; case 8: s.freeze(b); break; case 9: s.write(a); break; case 10: s.set_lr(0.f); break; default: s.grad(a, 4); }
        s.verify(); s.st = vp::mix(s.st, op); c.state(s.st);
    }
}
// every step alternates gradient, learning rate and frozen subset: 3 decisions per step
inline void training(vp::Ctx& c, const Cfg& k, const std::vector<std::pair<std::string, Sh>>& ps, int steps, bool exact) {
    Sys s(c, k, ps, exact); c.tell(k.str());
    for (int d = 0; d < steps; ++d) {
        int g = c.choose(3), f = c.choose(3), l = c.choose(2); c.tell("gradients ", g, f == 0 ? "" : f == 1 ? ", toggle A" : ", toggle B", l ? ", change lr" : "", ", step");
        s.grad(ps[0].first, g); s.grad(ps[1].first, (g + 2) % 4 == 3 ? 2 : (g + 2) % 4); if (f == 1) s.freeze(ps[0].first); if (f == 2) s.freeze(ps[1].first); if (l) s.set_lr(s.lrf == 0.5f ? 0.125f : s.lrf == 0.125f ? 0.f : 0.5f);
        s.step(); s.verify(); s.st = vp::mix(s.st, g * 6 + f * 2 + l); c.state(s.st);
    }
}
inline void sizes(vp::Ctx& c, const Cfg& k, int n, bool exact) {
    c.tell(k.str(), ", 5 parameters, largest ", n); Sys s(c, k, {{"a.weight", {n}}, {"a.bias", {(n + 1) / 2, 2}}, {"b", {1}}, {"b.weight", {1, n, 1}}, {"", {3, 3}}}, exact);
    int q = 0; for (int d = 0; d < 4; ++d) { for (auto& kv : s.g) { std::string nm = kv.first; s.grad(nm, (d + q++) % 3); } s.step(); s.verify(); } c.state(vp::mix(s.st, n));
}
// gradients and learning rates of every magnitude and sign, parameters starting at 0 (so relative precision is visible)
inline void extremes(vp::Ctx& c, const Cfg& k, int steps) {
    Sys s(c, k, {{"w", {5}}, {"b", {2}}}, false); c.tell("magnitudes: ", k.str()); for (auto& kv : s.r) { setv(s.pm.at(kv.first).data(), Vec(kv.second.w.size(), 0.f)); kv.second.w.assign(kv.second.w.size(), 0.0); }
    for (int d = 0; d < steps; ++d) {
        static const double G[] = {1, 0x1p20, 0x1p-20, 1e-8, 1e12, 0}; static const float LR[] = {0.5f, -0.25f, 1000.f, 1e-6f}; int q = c.choose(6), l = c.choose(4); c.tell("gradients x ", G[q], ", lr ", LR[l], ", step"); s.set_lr(LR[l]);
        for (auto& kv : s.g) { kv.second = gen(kv.second.size(), [&](size_t i) { return (scat(i, 9 + d, 3) + 0.5) * G[q]; }); setv(s.pm.at(kv.first).grad(), kv.second); }
        s.step(); c.check(bits(s.o.get_lr()) == bits(s.lrf), "get_lr does not return the last value set");
        for (auto& kv : s.r) { double mag = 0, big = 0; for (auto& e : kv.second.w) mag = std::max(mag, std::fabs(e)); s.hi[kv.first] = std::max(s.hi[kv.first], mag); big = s.hi[kv.first]; expect_vec(c, "parameter " + kv.first, vals(s.pm.at(kv.first).data()), kv.second.w, 2e-5, 2e-6 * big + 1e-37); expect_same(c, "gradient of " + kv.first, vals(s.pm.at(kv.first).grad()), s.g[kv.first]); }
        s.st = vp::mix(s.st, q * 4 + l); c.state(s.st);
    }
}
// many parameters
inline void many(vp::Ctx& c, const Cfg& k, int n, bool exact) {
    std::vector<std::pair<std::string, Sh>> ps; for (int i = 0; i < n; ++i) ps.push_back({"layer" + std::to_string(i) + (i % 2 ? ".bias" : ".weight"), i % 3 ? Sh{1 + i % 5} : Sh{2, 1 + i % 3}}); c.tell(k.str(), ", ", n, " parameters");
    Sys s(c, k, ps, exact); int q = 0; for (int d = 0; d < 4; ++d) { for (auto& p : ps) { s.grad(p.first, (d + q++) % 3); if (q % 7 == 0 && d == 1) s.freeze(p.first); } s.step(); s.verify(); } c.state(vp::mix(s.st, n));
}
inline void two(vp::Ctx& c, const Cfg& k) { // two optimizers with their own parameters do not influence each other; nor do two on disjoint maps of one name
    Sys a(c, k, {{"w", {5}}, {"b", {2}}}, false), b(c, k, {{"w", {3}}, {"b", {2}}}, false); c.tell("two optimizers: ", k.str());
    for (int d = 0; d < 8; ++d) { int op = c.choose(3); Sys& s = op == 0 ? a : b; c.tell(op == 0 ? "step 1" : op == 1 ? "step 2" : "set_lr 2"); if (op == 2) s.set_lr(0.25f); else { s.grad("w", d % 3); s.grad("b", 0); s.step(); } a.verify(); b.verify(); a.st = vp::mix(a.st, op); c.state(a.st); }
}
inline void lives(vp::Ctx& c, const std::vector<Cfg>& ks) { // optimizers and parameters that come and go, so that a new one may live where another has been
    static const std::vector<int> N = {5, 4, 9}; uint64_t st = 0; Cfg k = c.pick(ks);
    for (int d = 0; d < 3; ++d) { int n = c.pick(N), steps = c.range(1, 3); bool other = c.flip(); Cfg q = k; if (other) q.lr *= 2; c.tell(q.str(), " on ", n, " numbers, ", steps, " steps; "); Sys s(c, q, {{"w", {n}}, {"b", {2}}}, false); for (int i = 0; i < steps; ++i) { s.grad("w", i % 3); s.grad("b", 0); s.step(); s.verify(); } c.state(st = vp::mix(st, n * 8 + steps * 2 + other)); }
}
} // namespace optim
