// Two layers of one type whose lives overlap: every interleaving of creating them and of their
// passes; each must give what it gives when it is alone in the process.
#pragma once
#include "dwh.hpp"
#include <map>
namespace twins {
struct Cfg { std::string name; std::function<Lay(const Sh&)> make; std::vector<Sh> shapes; bool two = false; std::vector<Sh> outs{}; };
enum { OUT = 1, GIN = 2, PGRAD = 4, BUF = 8, ALL = 15 };
inline std::vector<Cfg> cfgs(const std::string& type) {
    std::vector<Cfg> v; auto add = [&](std::string n, std::function<Lay(const Sh&)> f, std::vector<Sh> s, bool two = false) { v.push_back({n, f, s, two}); for (auto& q : s) v.back().outs.push_back(f(q).out); };
    auto conv = [&](int co, A2 k, A2 p, A2 st, std::vector<Sh> s) { add("Convolution " + std::to_string(co) + " k" + a2s(k) + " p" + a2s(p) + " s" + a2s(st), [=](const Sh& q) { return Lay::make(dw::Convolution(co, k, p, st, "x"), {q}); }, s); };
    auto pool = [&](A2 k, A2 p, A2 st, std::vector<Sh> s) { add("MaxPooling k" + a2s(k) + " p" + a2s(p) + " s" + a2s(st), [=](const Sh& q) { return Lay::make(dw::MaxPooling(k, p, st, "x"), {q}); }, s); };
    if (type == "Linear") { for (int u : {3, 2}) add("Linear(" + std::to_string(u) + ")", [=](const Sh& q) { return Lay::make(dw::Linear(u, "x"), {q}); }, {{2, 4}, {3, 2, 2}}); }
    if (type == "Convolution") { conv(2, {3, 3}, {1, 1}, {1, 1}, {{2, 2, 3, 4}, {1, 2, 4, 6}}); conv(2, {3, 3}, {0, 0}, {1, 1}, {{2, 2, 5, 6}, {1, 2, 5, 3}}); conv(3, {3, 3}, {1, 1}, {2, 1}, {{2, 2, 5, 4}, {2, 2, 4, 4}}); }
    if (type == "MaxPooling") { pool({2, 2}, {0, 0}, {2, 2}, {{1, 2, 4, 6}, {2, 1, 6, 4}}); pool({2, 2}, {1, 1}, {2, 2}, {{1, 2, 2, 4}, {2, 1, 4, 3}}); pool({2, 2}, {0, 0}, {1, 1}, {{1, 2, 3, 4}, {1, 2, 4, 3}}); }
    if (type == "BatchNorm") { for (float e : {0.25f, 1.f}) add("BatchNorm1D eps " + std::to_string(e), [=](const Sh& q) { return Lay::make(dw::BatchNorm1D(e, 0.5f * e, "x"), {q}); }, {{4, 3}, {2, 3}});
        for (float e : {0.25f, 1.f}) add("BatchNorm2D eps " + std::to_string(e), [=](const Sh& q) { return Lay::make(dw::BatchNorm2D(e, 0.5f * e, "x"), {q}); }, {{2, 3, 2, 1}, {1, 3, 2, 2}}); }
    if (type == "GlobalAvgPooling") add(type, [](const Sh& q) { return Lay::make(dw::GlobalAvgPooling("x"), {q}); }, {{2, 2, 2, 3}, {2, 2, 3, 3}});
    if (type == "Softmax") add(type, [](const Sh& q) { return Lay::make(dw::Softmax("x"), {q}); }, {{2, 3}, {3, 2}});
    if (type == "Add") add(type, [](const Sh& q) { return Lay::make(dw::Add("x"), {q, q}); }, {{2, 3}, {7}}, true);
    std::vector<Sh> as{{2, 9}, {1, 2, 3, 3}};
    if (type == "Activation") { add("ReLU", [](const Sh& q) { return Lay::make(dw::ReLU("x"), {q}); }, as); add("Sigmoid", [](const Sh& q) { return Lay::make(dw::Sigmoid("x"), {q}); }, as);
        for (float a : {0.25f, 2.f}) { add("LeakyReLU " + std::to_string(a), [=](const Sh& q) { return Lay::make(dw::LeakyReLU(a, "x"), {q}); }, as); add("ELU " + std::to_string(a), [=](const Sh& q) { return Lay::make(dw::ELU(a, "x"), {q}); }, as); } }
    return v;
}
struct Res { Vec y; std::vector<Vec> gi; std::map<std::string, Vec> pg, buf; };
// One layer's life: actions 0 create, then its program over 'F' (forward) and 'B' (both gradients of the latest forward).
struct Life {
    const Cfg& f; int who, shapes; std::string prog; size_t at = 0; int nf = 0; Lay l; std::vector<dw::Tensor> in; dw::Tensor y; std::vector<Res> res; bool keep = false, hold = false; std::map<std::string, dw::Tensor> kept;
    Life(const Cfg& f, int who, int shapes, std::string prog, bool keep) : f(f), who(who), shapes(shapes), prog("C" + prog), keep(keep) {}
    bool done() const { return at == prog.size(); }
    dw::Tensor t(const std::string& role, const Sh& s, const Vec& v) { if (!keep) return mk(s, v); auto k = role + sstr(s); auto it = kept.find(k); if (it == kept.end()) it = kept.emplace(k, dw::Tensor(s)).first; setv(it->second, v); return it->second; }
    std::string step() {
        char a = prog[at++]; Res r; std::string what;
        if (a == 'C') { l = f.make(f.shapes[0]); int i = 0; for (auto n : {"weight", "bias", "gamma", "beta"}) { auto it = l.info.params().find(n); if (it != l.info.params().end()) setv(it->second.data(), ints(it->second.data().total(), 60 + who * 10 + i++, 4)); } what = "created"; }
        else if (a == 'F') { int q = nf % 2 ? shapes : 0; Sh s = f.shapes[q], os = f.outs[q]; in = {t("a", s, ints(prod(s), 300 * who + 7 * nf, 6))}; if (f.two) in.push_back(t("b", s, ints(prod(s), 300 * who + 7 * nf + 3, 6))); std::vector<dw::Tensor> o{t("y", os, Vec(prod(os), NAN))}; l.impl->forward(in, o); y = o[0]; r.y = vals(y); ++nf; what = "forward " + sstr(s); }
        else { auto go = t("go", y.shape(), ints(y.total(), 900 + 300 * who + nf, 5)); l.params_grad(in, go); std::vector<dw::Tensor> gi; for (auto& q : in) gi.push_back(t("gi" + std::to_string(gi.size()), q.shape(), ints(q.total(), 3, 2))); l.backward(in, y, go, gi); for (auto& q : gi) r.gi.push_back(vals(q)); for (auto& kv : l.info.params()) r.pg[kv.first] = vals(kv.second.grad()); what = "backward"; }
        for (auto& kv : l.info.buffers()) r.buf[kv.first] = vals(kv.second);
        res.push_back(r);
        if (done() && !hold) { l = Lay(); in.clear(); y = dw::Tensor(); kept.clear(); }
        return (who ? " B " : " A ") + what + ";";
    }
};
inline void check(vp::Ctx& c, const Life& a, const std::vector<Res>& want, int parts) {
    size_t i = a.res.size() - 1; auto& g = a.res[i]; auto& w = want[i]; std::string n = a.who ? "B: " : "A: ";
    if (parts & OUT) expect_vec(c, n + "output", g.y, w.y, 2e-6, 2e-6);
    if (parts & GIN) for (size_t k = 0; k < w.gi.size(); ++k) expect_vec(c, n + "grad_input", g.gi[k], w.gi[k], 2e-6, 2e-6);
    if (parts & PGRAD) for (auto& kv : w.pg) expect_vec(c, n + "gradient of " + kv.first, g.pg.at(kv.first), kv.second, 2e-6, 2e-6);
    if (parts & BUF) for (auto& kv : w.buf) expect_vec(c, n + kv.first, g.buf.at(kv.first), kv.second, 2e-6, 2e-6);
}
inline void run(vp::Ctx& c, const std::vector<std::string>& types, int parts) {
    auto v = cfgs(c.pick(types)); auto &fa = v[c.choose((int)v.size())], &fb = v[c.choose((int)v.size())];
    bool th = c.thorough(); int sa = c.choose(2), sb = th ? c.choose(2) : sa, pr = c.choose(th ? 4 : 2); bool keep = (th || !pr) && c.flip(); static const char* progs[][2] = {{"FBFB", "FBFB"}, {"FFB", "FBF"}, {"FBFBFB", "FBFB"}, {"FFFB", "FBB"}};
    c.tell("A = ", fa.name, ", B = ", fb.name, keep ? ", tensors overwritten in place" : "", ":");
    std::vector<Res> want[2];
    Life ra(fa, 0, sa, progs[pr][0], keep), rb(fb, 1, sb, progs[pr][1], keep); ra.hold = rb.hold = true; // these stay alive: B of the run may come to live where A did, the references do not
    while (!ra.done()) ra.step(); want[0] = ra.res; while (!rb.done()) rb.step(); want[1] = rb.res;
    Life a(fa, 0, sa, progs[pr][0], keep), b(fb, 1, sb, progs[pr][1], keep); uint64_t st = vp::mix(vp::hash_str(fa.name + fb.name), sa * 16 + sb * 8 + pr * 2 + keep);
    while (!a.done() || !b.done()) { bool second = a.done() ? true : b.done() ? false : c.flip(); Life& l = second ? b : a; c.tell(l.step()); c.step(); check(c, l, want[second], parts); c.state(st = vp::mix(st, second + 1)); }
}
}
