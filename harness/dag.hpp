// Enumeration of layer graphs, their reference evaluation and reverse-mode differentiation.
#pragma once
#include "ref.hpp"
#include <map>
#include <ade/graph.hpp>
#include <deepworks/model.hpp>
#include <deepworks/serialization.hpp>

namespace dag {
enum Kind { LINEAR, RELU, ADD, LEAKY, SIGMOID };
inline const char* kname(int k) { static const char* n[] = {"Linear", "ReLU", "Add", "LeakyReLU", "Sigmoid"}; return n[k]; }
struct Op { int kind, a, b; };
inline int N = 2, F = 3; // every value is an N x F matrix
struct Size { int n = N, f = F; Size(int a, int b) { N = a; F = b; } ~Size() { N = n; F = f; } };
struct G {
    int nin = 1; std::vector<Op> ops; std::vector<int> ins, outs; std::vector<std::string> names; // values: inputs first, then one per op
    bool is_in(int v) const { for (int i : ins) if (i == v) return true; return false; }
    // ops that belong to the model: reached from the outputs without passing through an input
    std::vector<bool> live() const { std::vector<bool> l(ops.size()), seen(nv()); std::vector<int> st = outs; while (!st.empty()) { int v = st.back(); st.pop_back(); if (seen[v]) continue; seen[v] = true; if (is_in(v) || v < nin) continue; l[v - nin] = true; st.push_back(ops[v - nin].a); if (ops[v - nin].kind == ADD) st.push_back(ops[v - nin].b); } return l; }
    int nlive() const { int n = 0; for (bool b : live()) n += b; return n; }
    int nv() const { return nin + (int)ops.size(); }
    std::string str() const { std::ostringstream o; for (size_t i = 0; i < ops.size(); ++i) { o << "v" << nin + i << "=" << kname(ops[i].kind) << "(v" << ops[i].a; if (ops[i].kind == ADD) o << ",v" << ops[i].b; o << ") "; } o << "inputs"; for (int i : ins) o << " v" << i; o << " outputs"; for (int i : outs) o << " v" << i; return o.str(); }
    uint64_t hash() const { return vp::hash_str(str()); }
};
// Every graph with exactly k ops and nin inputs, every op and input used, over the given kinds.
// outs_mode: 0 sinks only in order, 1 every admissible output set in every order
inline G choose(vp::Ctx& c, int nin, int k, const std::vector<int>& kinds, int outs_mode, bool ordered_add = false) {
    G g; g.nin = nin;
    for (int i = 0; i < k; ++i) {
        Op o{kinds[c.choose((int)kinds.size(), "kind")], 0, 0}; int m = nin + i; o.a = c.choose(m, "arg");
        if (o.kind == ADD) o.b = ordered_add ? c.choose(m, "arg") : o.a + c.choose(m - o.a, "arg"); g.ops.push_back(o);
    }
    std::vector<bool> used(g.nv()); for (auto& o : g.ops) { used[o.a] = true; if (o.kind == ADD) used[o.b] = true; }
    for (int i = 0; i < nin; ++i) if (!used[i]) throw vp::Skip{};
    std::vector<int> os; for (int v = nin; v < g.nv(); ++v) if (!used[v] || (outs_mode && c.flip("also output"))) os.push_back(v);
    if (outs_mode) { while (!os.empty()) { int j = c.choose((int)os.size(), "output order"); g.outs.push_back(os[j]); os.erase(os.begin() + j); } } else g.outs = os;
    std::vector<int> is(nin); for (int i = 0; i < nin; ++i) is[i] = i; if (nin > 1 && outs_mode) { while (!is.empty()) { int j = c.choose((int)is.size(), "input order"); g.ins.push_back(is[j]); is.erase(is.begin() + j); } } else g.ins = is;
    g.names.resize(k); for (int i = 0; i < k; ++i) g.names[i] = "op" + std::to_string(i);
    return g;
}
// Graphs whose input and output lists are arbitrary: unused inputs, inputs in the middle of the
// expression, outputs that are inputs, that repeat or that leave part of the expression out.
inline G choose_any(vp::Ctx& c, int nin, int k, const std::vector<int>& kinds, int maxouts, bool cuts) {
    G g; g.nin = nin;
    for (int i = 0; i < k; ++i) { Op o{kinds[c.choose((int)kinds.size(), "kind")], 0, 0}; int m = nin + i; o.a = c.choose(m, "arg"); if (o.kind == ADD) o.b = o.a + c.choose(m - o.a, "arg"); g.ops.push_back(o); }
    for (int v = 0; v < g.nv(); ++v) if (v < nin ? true : cuts && c.flip("also input")) g.ins.push_back(v);
    if (g.ins.size() > 1 && c.flip("inputs reversed")) std::reverse(g.ins.begin(), g.ins.end());
    int n = c.range(1, maxouts, "number of outputs"); for (int i = 0; i < n; ++i) g.outs.push_back(c.choose(g.nv(), "output"));
    for (int i = 0; i < k; ++i) g.names.push_back("op" + std::to_string(i));
    return g;
}
// Topological orders: the graph library's freedom. First-come or last-come by default, with at
// most `dev` other choices (dev < 0: every order).
struct Orders {
    Orders(vp::Ctx& c, int dev, bool both = true) { bool lifo = dev >= 0 && both && c.flip("last-come order"); int left = dev; ade::vp::chooser() = [&c, lifo, left](int n) mutable { if (left < 0) return c.choose(n, "topological order"); if (left == 0) return lifo ? n - 1 : 0; int v = c.choose(n, "topological order"); if (v) --left; return lifo ? n - 1 - v : v; }; }
    ~Orders() { ade::vp::chooser() = nullptr; }
};
struct Built { std::vector<dw::Placeholder> vals; dw::Model m; };
inline Built build(const G& g) {
    Built b; for (int i = 0; i < g.nin; ++i) b.vals.emplace_back(Sh{N, F});
    for (size_t i = 0; i < g.ops.size(); ++i) { auto& o = g.ops[i]; auto& n = g.names[i]; auto A = b.vals[o.a], B = b.vals[o.b];
        b.vals.push_back(o.kind == LINEAR ? dw::Linear(F, n)(A) : o.kind == RELU ? dw::ReLU(n)(A) : o.kind == LEAKY ? dw::LeakyReLU(0.5f, n)(A) : o.kind == SIGMOID ? dw::Sigmoid(n)(A) : dw::Add(n)(A, B)); }
    dw::Placeholders in, out; for (int i : g.ins) in.push_back(b.vals[i]); for (int i : g.outs) out.push_back(b.vals[i]);
    b.m = dw::Model(in, out); return b;
}
struct Weights { std::vector<Vec> W, b; };
inline Weights weights(const G& g, uint64_t salt = 5) { Weights w; for (size_t i = 0; i < g.ops.size(); ++i) { w.W.push_back(ints(F * F, salt + 10 * i, 2)); w.b.push_back(ints(F, salt + 10 * i + 3, 3)); } return w; }
inline void set_weights(dw::Model& m, const G& g, const Weights& w) { for (size_t i = 0; i < g.ops.size(); ++i) if (g.ops[i].kind == LINEAR && g.live()[i]) { setv(m.params().at(g.names[i] + ".weight").data(), w.W[i]); setv(m.params().at(g.names[i] + ".bias").data(), w.b[i]); } }
// values of every node
inline std::vector<Vec> eval(const G& g, const Weights& w, const std::vector<Vec>& in) {
    std::vector<Vec> v(in.begin(), in.begin() + g.nin);
    for (size_t i = 0; i < g.ops.size(); ++i) { auto& o = g.ops[i]; const Vec &A = v[o.a], &B = v[o.b]; Vec r(N * F);
        if (o.kind == LINEAR) { D y = ref::linear(N, F, F, A, w.W[i], w.b[i]); r.assign(y.begin(), y.end()); }
        else for (int e = 0; e < N * F; ++e) r[e] = o.kind == RELU ? std::max(A[e], 0.f) : o.kind == LEAKY ? (A[e] >= 0 ? A[e] : 0.5f * A[e]) : o.kind == SIGMOID ? float(1.0 / (1.0 + std::exp(-double(A[e])))) : A[e] + B[e];
        v.push_back(g.is_in(g.nin + int(i)) ? in[g.nin + i] : r); }
    return v;
}
struct Grads { std::vector<D> W, b; };
inline Grads grad(const G& g, const Weights& w, const std::vector<Vec>& v, const std::map<int, Vec>& gout) {
    std::vector<D> gv(g.nv(), D(N * F)); for (auto& kv : gout) for (int e = 0; e < N * F; ++e) gv[kv.first][e] += kv.second[e];
    Grads r; r.W.resize(g.ops.size()); r.b.resize(g.ops.size());
    for (int i = (int)g.ops.size() - 1; i >= 0; --i) { auto& o = g.ops[i]; if (g.is_in(g.nin + i)) continue; const D& go = gv[g.nin + i]; const Vec &A = v[o.a], &Y = v[g.nin + i];
        if (o.kind == LINEAR) { r.W[i] = ref::linear_gw(N, F, F, A, go); r.b[i] = ref::linear_gb(N, F, go); D gx = ref::linear_gx(N, F, F, w.W[i], go); for (int e = 0; e < N * F; ++e) gv[o.a][e] += gx[e]; }
        else for (int e = 0; e < N * F; ++e) { double d = o.kind == RELU ? (A[e] > 0) : o.kind == LEAKY ? (A[e] >= 0 ? 1.0 : 0.5) : o.kind == SIGMOID ? double(Y[e]) * (1 - Y[e]) : 1.0; gv[o.a][e] += d * go[e]; if (o.kind == ADD) gv[o.b][e] += go[e]; } }
    return r;
}
// Tensors a caller keeps and overwrites in place between passes.
struct Pool { std::map<std::string, dw::Tensor> m; dw::Tensor get(const char* role, size_t i, const Vec& v) { auto k = role + std::to_string(i); auto it = m.find(k); if (it == m.end()) it = m.emplace(k, dw::Tensor(Sh{N, F})).first; setv(it->second, v); return it->second; } };
inline dw::Tensor tens(Pool* p, const char* role, size_t i, const Vec& v) { return p ? p->get(role, i, v) : mk({N, F}, v); }
inline std::vector<Vec> inputs(const G& g, uint64_t salt) { std::vector<Vec> r; for (int i = 0; i < g.nv(); ++i) r.push_back(ints(N * F, salt + 100 * i, 4)); return r; }
} // namespace dag
