// C34: the documented training loop in lock-step with gradient descent in double precision.
#include "ds.hpp"
#include "opt.hpp"
#include "zoo.hpp"
#include <deepworks/dataloader.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <unistd.h>
namespace {
enum K { LIN, RELU, LEAKY, SIG, BN1, BN2, CONV, POOL, GAP, ADDP, SOFT, ELU };
struct L { K k; std::string name; int units = 0; }; // ADDP: adds the input of the previous layer
struct Spec { std::string desc; Sh item; std::vector<L> ls; };
const float EPS = 0.25f, ALPHA = 0.5f; const int CLS = 3;
const std::vector<Spec>& specs() {
    static std::vector<Spec> v;
    if (v.empty()) {
        v.push_back({"Linear-ReLU-Linear-Softmax", {4}, {{LIN, "fc0", 4}, {RELU, "r"}, {LIN, "fc1", CLS}, {SOFT, "s"}}});
        v.push_back({"Linear-BatchNorm1D-LeakyReLU-residual-Linear-Softmax", {4}, {{LIN, "fc0", 4}, {BN1, "bn"}, {LEAKY, "l"}, {ADDP, "res"}, {LIN, "fc1", CLS}, {SOFT, "s"}}});
        v.push_back({"Convolution-BatchNorm2D-ReLU-MaxPooling-Linear-Softmax", {1, 4, 3}, {{CONV, "conv", 2}, {BN2, "bn"}, {RELU, "r"}, {POOL, "p"}, {LIN, "fc", CLS}, {SOFT, "s"}}});
        v.push_back({"Convolution-ELU-GlobalAvgPooling-Sigmoid-Linear-Softmax", {2, 3, 3}, {{CONV, "conv", 3}, {ELU, "e"}, {GAP, "g"}, {SIG, "x"}, {LIN, "fc", CLS}, {SOFT, "s"}}});
    }
    return v;
}
struct Data : dw::IDataset { Sh item; int n; std::vector<Vec> x; std::vector<int> y; Data(const Sh& s, int n) : item(s), n(n) { for (int i = 0; i < n; ++i) { x.push_back(gen(prod(s), [&](size_t e) { return scat(e, 500 + i, 5) * 0.375 + 0.0625; })); y.push_back((i * 2 + i / 3) % CLS); } } size_t size() override { return n; } OutShape shape() override { return {item, {1}}; } void pull(int i, dw::Tensor& X, dw::Tensor& Y) override { std::copy(x[i].begin(), x[i].end(), X.data()); Y.data()[0] = float(y[i]); } };
// double-precision network: values, parameters, gradients
struct Net {
    const Spec& s; int B; std::vector<Sh> sh; std::map<std::string, D> P, G, S; // parameters, gradients, running statistics
    std::vector<D> v; std::vector<ref::BNS> st;
    Net(const Spec& s, int B) : s(s), B(B) { Sh a{B}; a.insert(a.end(), s.item.begin(), s.item.end()); sh.push_back(a); for (auto& l : s.ls) { Sh q = sh.back(); if (l.k == LIN) q = {B, l.units}; if (l.k == CONV) q[1] = l.units; if (l.k == POOL) q = {q[0], q[1], q[2] / 2, q[3] - 1}; if (l.k == GAP) q = {q[0], q[1], 1, 1}; sh.push_back(q); } }
    ref::Geo geo(size_t i) { return {sh[i][0], sh[i][1], sh[i][2], sh[i][3], s.ls[i].units, {3, 3}, {1, 1}, {1, 1}}; }
    ref::BN bng(size_t i) { return {sh[i][0], sh[i][1], sh[i].size() == 4 ? sh[i][2] * sh[i][3] : 1}; }
    template <typename Fn> void pool(size_t i, Fn f) { auto &a = sh[i], &o = sh[i + 1]; for (int p = 0; p < o[0] * o[1]; ++p) for (int r = 0; r < o[2]; ++r) for (int q = 0; q < o[3]; ++q) { int best = -1; for (int e = 0; e < 2; ++e) for (int d = 0; d < 2; ++d) { int x = (p * a[2] + r * 2 + e) * a[3] + q + d; if (best < 0 || v[i][x] > v[i][best]) best = x; } f((p * o[2] + r) * o[3] + q, best); } }
    D forward(const Vec& x, bool train) {
        v = {dvec(x)}; st.assign(s.ls.size(), {});
        for (size_t i = 0; i < s.ls.size(); ++i) { auto& l = s.ls[i]; const D& a = v[i]; D y(prod(sh[i + 1])); auto& W = P[l.name + ".weight"]; auto& b = P[l.name + ".bias"];
            switch (l.k) { case LIN: { int f = int(a.size()) / B; for (int n = 0; n < B; ++n) for (int u = 0; u < l.units; ++u) { double q = b[u]; for (int k = 0; k < f; ++k) q += a[n * f + k] * W[u * f + k]; y[n * l.units + u] = q; } break; }
            case CONV: { auto g = geo(i); int pl = g.oh() * g.ow(); for (size_t e = 0; e < y.size(); ++e) y[e] = b[(e / pl) % l.units]; ref::taps(g, [&](int o, int w, int xi) { y[o] += W[w] * a[xi]; }); break; }
            case RELU: for (size_t e = 0; e < y.size(); ++e) y[e] = std::max(a[e], 0.0); break; case LEAKY: for (size_t e = 0; e < y.size(); ++e) y[e] = a[e] >= 0 ? a[e] : 0.25 * a[e]; break; case ELU: for (size_t e = 0; e < y.size(); ++e) y[e] = a[e] >= 0 ? a[e] : 0.5 * (std::exp(a[e]) - 1); break; case SIG: for (size_t e = 0; e < y.size(); ++e) y[e] = 1 / (1 + std::exp(-a[e])); break;
            case BN1: case BN2: { auto g = bng(i); auto &rm = S[l.name + ".running_mean"], &rv = S[l.name + ".running_var"]; if (train) { st[i] = ref::bn_stats(g, a); for (int k = 0; k < g.c; ++k) { rm[k] = ALPHA * rm[k] + (1 - ALPHA) * st[i].mean[k]; rv[k] = ALPHA * rv[k] + (1 - ALPHA) * st[i].var[k]; } } else st[i] = {rm, rv}; y = ref::bn(g, a, st[i], P[l.name + ".gamma"], P[l.name + ".beta"], EPS); break; }
            case POOL: pool(i, [&](int o, int x) { y[o] = a[x]; }); break; case GAP: { int pl = sh[i][2] * sh[i][3]; for (size_t e = 0; e < a.size(); ++e) y[e / pl] += a[e] / pl; break; }
            case ADDP: for (size_t e = 0; e < y.size(); ++e) y[e] = a[e] + v[i - 1][e]; break; case SOFT: y = ref::softmax(B, CLS, a); break; }
            v.push_back(y); }
        return v.back();
    }
    void backward(const D& go) {
        std::vector<D> g; for (auto& x : v) g.push_back(D(x.size())); g.back() = go;
        for (int i = int(s.ls.size()) - 1; i >= 0; --i) { auto& l = s.ls[i]; const D &a = v[i], &y = v[i + 1], &q = g[i + 1]; D& gi = g[i]; auto& W = P[l.name + ".weight"];
            switch (l.k) { case LIN: { int f = int(a.size()) / B; D gw(W.size()), gb(l.units); for (int n = 0; n < B; ++n) for (int u = 0; u < l.units; ++u) { double d = q[n * l.units + u]; gb[u] += d; for (int k = 0; k < f; ++k) { gw[u * f + k] += d * a[n * f + k]; gi[n * f + k] += d * W[u * f + k]; } } G[l.name + ".weight"] = gw; G[l.name + ".bias"] = gb; break; }
            case CONV: { auto ge = geo(i); D gw(W.size()); ref::taps(ge, [&](int o, int w, int x) { gw[w] += q[o] * a[x]; gi[x] += q[o] * W[w]; }); G[l.name + ".weight"] = gw; G[l.name + ".bias"] = ref::conv_gb(ge, q); break; }
            case RELU: for (size_t e = 0; e < a.size(); ++e) gi[e] += a[e] > 0 ? q[e] : 0; break; case LEAKY: for (size_t e = 0; e < a.size(); ++e) gi[e] += a[e] >= 0 ? q[e] : 0.25 * q[e]; break; case ELU: for (size_t e = 0; e < a.size(); ++e) gi[e] += a[e] >= 0 ? q[e] : 0.5 * std::exp(a[e]) * q[e]; break; case SIG: for (size_t e = 0; e < a.size(); ++e) gi[e] += y[e] * (1 - y[e]) * q[e]; break;
            case BN1: case BN2: { auto ge = bng(i); D x = ref::bn_gx(ge, a, st[i], P[l.name + ".gamma"], EPS, q); for (size_t e = 0; e < x.size(); ++e) gi[e] += x[e]; G[l.name + ".gamma"] = ref::bn_ggamma(ge, a, st[i], EPS, q); G[l.name + ".beta"] = ref::bn_gbeta(ge, q); break; }
            case POOL: pool(i, [&](int o, int x) { gi[x] += q[o]; }); break; case GAP: { int pl = sh[i][2] * sh[i][3]; for (size_t e = 0; e < a.size(); ++e) gi[e] += q[e / pl] / pl; break; }
            case ADDP: for (size_t e = 0; e < a.size(); ++e) { gi[e] += q[e]; g[i - 1][e] += q[e]; } break; case SOFT: { D x = ref::softmax_gx(B, CLS, y, q); for (size_t e = 0; e < x.size(); ++e) gi[e] += x[e]; break; } } }
    }
};
struct Run {
    vp::Ctx& c; const Spec& s; int B; Net n; dw::Model m; std::shared_ptr<Data> data; std::shared_ptr<dw::DataLoader> loader; int pos = 0; optim::Cfg k; optim::Opt opt; std::map<std::string, bool> on; std::map<std::string, D> v1, v2; size_t t = 0; dw::loss::CrossEntropyLoss loss; dw::Tensor X, y; std::string path; int steps = 0;
    Run(vp::Ctx& c, const Spec& s, int B, int items, const optim::Cfg& k) : c(c), s(s), B(B), n(s, B), k(k) {
        path = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/t" + std::to_string(getpid()); data = std::make_shared<Data>(s.item, items); loader = std::make_shared<dw::DataLoader>(data, B, false);
        dw::Placeholder in(n.sh[0]), x = in, prev = in; for (auto& l : s.ls) { dw::Placeholder y; auto& nm = l.name; switch (l.k) { case LIN: y = dw::Linear(l.units, nm)(x); break; case RELU: y = dw::ReLU(nm)(x); break; case LEAKY: y = dw::LeakyReLU(0.25f, nm)(x); break; case ELU: y = dw::ELU(0.5f, nm)(x); break; case SIG: y = dw::Sigmoid(nm)(x); break; case BN1: y = dw::BatchNorm1D(EPS, ALPHA, nm)(x); break; case BN2: y = dw::BatchNorm2D(EPS, ALPHA, nm)(x); break; case CONV: y = dw::Convolution(l.units, {3, 3}, {1, 1}, {1, 1}, nm)(x); break; case POOL: y = dw::MaxPooling({2, 2}, {0, 0}, {2, 1}, nm)(x); break; case GAP: y = dw::GlobalAvgPooling(nm)(x); break; case ADDP: y = dw::Add(nm)(x, prev); break; case SOFT: y = dw::Softmax(nm)(x); break; } prev = x; x = y; }
        m = dw::Model(in, x); zoo::randomize(m, 21); for (auto& kv : m.state()) { auto q = kv.second; if (kv.first.find("running") == std::string::npos) for (size_t i = 0; i < q.total(); ++i) q.data()[i] = q.data()[i] * 0.5f + 0.0625f; }
        for (auto& kv : m.params()) on[kv.first] = true; attach(); sync();
    }
    void attach() { m.compile(); m.train(true); for (auto& kv : on) kv.second = true; opt = optim::make(m.params(), k); v1.clear(); v2.clear(); t = 0; }
    void sync() { for (auto& kv : m.state()) (kv.first.find("running") == std::string::npos ? n.P : n.S)[kv.first] = dvec(vals(kv.second)); }
    void compare(const std::string& w, bool exact, const std::map<std::string, Vec>& before) {
        for (auto& kv : m.state()) { Vec a = vals(kv.second); bool run = kv.first.find("running") != std::string::npos; if (exact) { expect_same(c, kv.first + " in " + w, a, before.at(kv.first)); continue; } const D& e = (run ? n.S : n.P).at(kv.first); double sc = 1; for (double q : e) sc = std::max(sc, std::fabs(q)); expect_vec(c, kv.first + " after " + w, a, e, 2e-4, 2e-4 * sc); if (!run && !on.at(kv.first)) expect_same(c, "frozen " + kv.first + " in " + w, a, before.at(kv.first)); }
        sync();
    }
    std::map<std::string, Vec> snap() { std::map<std::string, Vec> r; for (auto& kv : m.state()) r[kv.first] = vals(kv.second); return r; }
    bool pull(Vec& x, std::vector<int>& lab) { bool ok = loader->pull(X, y); bool e = pos + B <= data->n; c.check(ok == e, "the loader's end of epoch"); if (!ok) { pos = 0; return false; } x.clear(); lab.clear(); for (int i = 0; i < B; ++i) { x.insert(x.end(), data->x[pos + i].begin(), data->x[pos + i].end()); lab.push_back(data->y[pos + i]); } pos += B; expect_same(c, "batch", vals(X), x); for (int i = 0; i < B; ++i) c.check(y.data()[i] == float(lab[i]), "labels of the batch"); return true; }
    double lossref(const D& p, const std::vector<int>& lab) { double r = 0; for (int i = 0; i < B; ++i) r -= std::log(p[i * CLS + lab[i]]) / B; return r; }
    void train_step(int mask = 0) { // mask: bit i set = row i has weight 0 in the loss
        c.tell("train step", mask ? " with zero-weighted rows " : "", mask ? std::to_string(mask) : ""); Vec x; std::vector<int> lab; if (!pull(x, lab)) c.check(pull(x, lab), "the loader does not restart"); auto before = snap();
        dw::Tensor p = mk({B, CLS}, Vec(B * CLS, NAN)), g = mk({B, CLS}, Vec(B * CLS, NAN)); 
        m.forward(X, p); float l = loss.forward(p, y); loss.backward(p, y, g); for (int i = 0; i < B; ++i) if (mask >> i & 1) for (int j = 0; j < CLS; ++j) g.data()[i * CLS + j] = 0.f; m.backward(X, p, g); opt.step(); c.step(); ++steps;
        D q = n.forward(x, true); expect_vec(c, "prediction", vals(p), q, 2e-4, 2e-5); double e = lossref(q, lab); c.check(close(l, e, 2e-4, 2e-5), "loss " + fstr(l) + ", expected " + fstr(e)); D go(B * CLS); for (int i = 0; i < B; ++i) if (!(mask >> i & 1)) go[i * CLS + lab[i]] = -1 / (B * q[i * CLS + lab[i]]); n.backward(go); ++t;
        for (auto& kv : n.P) if (on.count(kv.first) && on.at(kv.first)) { D &w = kv.second, &G = n.G[kv.first], &a = v1[kv.first], &b = v2[kv.first]; a.resize(w.size()); b.resize(w.size()); for (size_t i = 0; i < w.size(); ++i) { if (k.kind == 0) w[i] -= k.lr * G[i]; else if (k.kind == 1) { a[i] = k.gamma * a[i] + k.lr * G[i]; w[i] -= a[i]; } else { a[i] = k.b1 * a[i] + (1 - double(k.b1)) * G[i]; b[i] = k.b2 * b[i] + (1 - double(k.b2)) * G[i] * G[i]; w[i] -= k.lr * (a[i] / (1 - std::pow(double(k.b1), double(t)))) / (std::sqrt(b[i] / (1 - std::pow(double(k.b2), double(t)))) + double(k.eps)); } } }
        expect_same(c, "the batch in a training step", vals(X), x); compare("a training step", false, before);
    }
    void eval_pass() { // the flags are restored afterwards, as a user would who froze layers
        c.tell("eval pass"); auto before = snap(); auto old = on; m.train(false); Vec x = data->x[0]; x.clear(); for (int i = 0; i < B; ++i) { auto& q = data->x[(i * 2 + steps) % data->n]; x.insert(x.end(), q.begin(), q.end()); } dw::Tensor p = mk({B, CLS}, Vec(B * CLS, NAN)); m.forward(mk(n.sh[0], x), p); c.step(); D q = n.forward(x, false); expect_vec(c, "evaluation", vals(p), q, 2e-4, 2e-5); m.train(true); for (auto& kv : old) m.params().at(kv.first).train(kv.second); compare("an evaluation pass", true, before);
    }
    void freeze(const std::string& key) { c.tell("toggle ", key); on[key] = !on[key]; m.params().at(key).train(on[key]); }
    void reload() { c.tell("save+load"); auto before = snap(); dw::save(m, path); m = dw::load(path); unlink(path.c_str()); c.step(); attach(); compare("save and load", true, before); }
};
std::vector<optim::Cfg> cfgs() { return {{0, 0.25f, 0, 0, 0, 0, 0, false}, {1, 0.125f, 0.5f, 0, 0, 0, 0, false}, {2, 0.0625f, 0, 0.5f, 0.75f, 0.125f, 0, false}}; }
std::vector<std::string> linear_keys(const Spec& s) { std::vector<std::string> r; for (auto& l : s.ls) if (l.k == LIN || l.k == CONV) { r.push_back(l.name + ".weight"); r.push_back(l.name + ".bias"); } return r; }
}
SCENARIO(loops, 4) {
    const Spec& s = c.pick(specs()); auto k = c.pick(cfgs()); auto keys = linear_keys(s); c.tell(s.desc, " ", k.str()); Run r(c, s, 2, 5, k); uint64_t st = vp::mix(vp::hash_str(s.desc), k.kind); int D = c.thorough() ? 6 : 5;
    for (int d = 0; d < D; ++d) { int op = c.choose(5); switch (op) { case 0: r.train_step(); break; case 1: r.eval_pass(); break; case 2: r.freeze(keys[0]); break; case 3: r.freeze(keys.back()); break; default: r.reload(); } st = vp::mix(st, op); c.state(st); } r.train_step();
}
// plain loops over several epochs, every batch size, every frozen subset
SCENARIO(epochs, 3) { const Spec& s = c.pick(specs()); auto k = c.pick(cfgs()); auto keys = linear_keys(s); int B = c.range(1, 4), items = c.range(4, 7), fz = c.choose(1 << keys.size()); c.tell(s.desc, " ", k.str(), " batch ", B, " of ", items, " frozen set ", fz); Run r(c, s, B, items, k); for (size_t i = 0; i < keys.size(); ++i) if (fz >> i & 1) r.freeze(keys[i]); for (int d = 0; d < (c.thorough() ? 30 : 10); ++d) { r.train_step(); if (d % 4 == 2) r.eval_pass(); } c.state(vp::mix(vp::mix(vp::hash_str(s.desc), k.kind * 64 + B * 8 + items), fz)); }
// rows left out of the loss (weight 0), up to all of them, in every order
SCENARIO(weighted, 2) { const Spec& s = c.pick(specs()); auto k = c.pick(cfgs()); c.tell(s.desc, " ", k.str()); Run r(c, s, 2, 5, k); uint64_t st = vp::mix(vp::hash_str(s.desc), k.kind + 40); int D = c.thorough() ? 5 : 4; for (int d = 0; d < D; ++d) { int m = c.choose(4); r.train_step(m); st = vp::mix(st, m); c.state(st); } }
// interruption after any step: plain SGD continues exactly as if not interrupted
SCENARIO(interrupted, 2) { const Spec& s = c.pick(specs()); int total = c.thorough() ? 12 : 8, cut = c.choose(total), cut2 = c.choose(total); auto k = cfgs()[0]; c.tell(s.desc, " interrupted after ", cut, " and ", cut2, " steps"); c.state(vp::mix(vp::hash_str(s.desc), cut * 100 + cut2)); Run a(c, s, 2, 5, k), b(c, s, 2, 5, k); for (int i = 0; i < total; ++i) { a.train_step(); if (i == cut || i == cut2) b.reload(); b.train_step(); for (auto& kv : a.m.state()) expect_same(c, kv.first + " of the interrupted run", vals(b.m.state().at(kv.first)), vals(kv.second)); } }
