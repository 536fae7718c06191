// C36: Parameter handles share one value, gradient and trainable flag, over every operation sequence.
#include "dwh.hpp"
#include <memory>
namespace {
struct Cell { Sh s; Vec v, g; bool tr; float *pd, *pg; };
using CP = std::shared_ptr<Cell>;
struct World {
    vp::Ctx& c; std::vector<dw::Parameter> h; std::vector<CP> m; std::vector<dw::Tensor> src; std::vector<CP> srcm; int wr = 1;
    explicit World(vp::Ctx& c) : c(c) {}
    static CP cell(const Sh& s, bool tr) { auto x = std::make_shared<Cell>(); x->s = s; x->tr = tr; x->v.assign(prod(s), 0); x->g.assign(prod(s), 0); return x; }
    // a parameter takes over the tensor it is given; the caller may still hold a handle of it
    CP put(int i, const Sh& s, int flag, bool keep) {
        Vec v = gen(prod(s), [&](size_t k) { return wr * 64 + double(k); }); ++wr; dw::Tensor t = mk(s, v); float* p = t.data(); dw::Tensor k = t;
        auto x = cell(s, flag != 0); x->v = v; x->pd = p;
        dw::Parameter np = flag == 2 ? dw::Parameter(std::move(t)) : dw::Parameter(std::move(t), flag == 1); if (i < (int)h.size()) { h[i] = np; m[i] = x; } else { h.push_back(np); m.push_back(x); } x->pg = h[i].grad().data(); if (keep) { src.push_back(k); srcm.push_back(x); } return x;
    }
    void verify() {
        c.step(); uint64_t k = 3;
        for (size_t i = 0; i < h.size(); ++i) {
            auto& x = *m[i]; const dw::Parameter& q = h[i]; struct W { size_t i; std::string operator+(const char* s) const { return "parameter " + std::to_string(i) + ": " + s; } } w{i};
            if (q.data().shape() != x.s || q.grad().shape() != x.s) c.fail(w + "shape of data or gradient"); if (q.is_trainable() != x.tr) c.fail(w + "trainable flag"); if (q.data().data() != x.pd) c.fail(w + "data moved"); if (q.grad().data() != x.pg) c.fail(w + "gradient moved");
            if (h[i].data().data() != x.pd || h[i].grad().data() != x.pg) c.fail(w + "const and non-const views differ"); if (x.v.size() && x.pd == x.pg) c.fail(w + "data and gradient share memory");
            if (!same_bits(vals(q.data()), x.v)) c.fail(w + "data changed"); if (!same_bits(vals(q.grad()), x.g)) c.fail(w + "gradient changed");
            size_t f = i; for (size_t j = 0; j < i; ++j) { if (m[j] == m[i]) { f = std::min(f, j); continue; } if (x.v.size() && (m[j]->pd == x.pd || m[j]->pg == x.pg || m[j]->pd == x.pg || m[j]->pg == x.pd)) c.fail(w + "shares memory with another parameter"); }
            k = vp::mix(vp::mix(k, f), x.tr); for (int d : x.s) k = vp::mix(k, d); k = vp::mix(k, hv(x.v)); k = vp::mix(k, hv(x.g));
        }
        for (size_t i = 0; i < src.size(); ++i) { if (src[i].data() != srcm[i]->pd) c.fail("the tensor given to a parameter is not the one it holds"); if (!same_bits(vals(src[i]), srcm[i]->v)) c.fail("the tensor given to a parameter changed"); }
        c.state(k);
    }
    void op(const std::vector<Sh>& S) {
        int n = (int)h.size();
        switch (c.choose(7)) {
        case 0: { int i = c.choose(n), s = c.choose((int)S.size()), f = c.choose(3); c.tell("p", i, "=Parameter(", sstr(S[s]), f == 2 ? ")" : f ? ",true)" : ",false)"); put(i, S[s], f, true); break; }
        case 1: { int i = c.choose(n), j = c.choose(n); c.tell("p", i, "=p", j); h[i] = h[j]; m[i] = m[j]; break; }
        case 2: { int i = c.choose(n); bool t = c.flip(); c.tell("p", i, ".train(", t, ")"); h[i].train(t); m[i]->tr = t; break; }
        case 3: { int i = c.choose(n); c.tell("write p", i, ".data"); auto& t = h[i].data(); for (size_t k = 0; k < t.total(); ++k) m[i]->v[k] = t.data()[k] = wr * 64 + float(k); ++wr; break; }
        case 4: { int i = c.choose(n); c.tell("write p", i, ".grad"); auto& t = h[i].grad(); for (size_t k = 0; k < t.total(); ++k) m[i]->g[k] = t.data()[k] = -wr * 64 - float(k); ++wr; break; }
        case 5: { if (src.empty()) throw vp::Skip{}; int i = c.choose((int)src.size()); c.tell("write tensor ", i); for (size_t k = 0; k < src[i].total(); ++k) srcm[i]->v[k] = src[i].data()[k] = wr * 64 + float(k) + 0.5f; ++wr; break; }
        default: { int i = c.choose(n); c.tell("through a map entry p", i); dw::ParamMap pm{{"a", h[i]}, {"b", h[(i + 1) % n]}}; dw::ParamMap pm2 = pm; pm2.at("a").train(!m[i]->tr); m[i]->tr = !m[i]->tr; auto t = pm2.at("a").grad(); for (size_t k = 0; k < t.total(); ++k) m[i]->g[k] = t.data()[k] = wr * 7 + float(k); ++wr; }
        }
        verify();
    }
};
}
SCENARIO(two_handles, 3) { World w(c); static const std::vector<Sh> S = {{2}, {1, 3}}; int f = c.choose(3); w.put(0, {2, 2}, f, true); w.put(1, {3}, 2, false); w.verify(); int D = c.thorough() ? 5 : 4; for (int d = 0; d < D; ++d) w.op(S); }
SCENARIO(three_handles, 3) { World w(c); static const std::vector<Sh> S = {{2}}; w.put(0, {2}, 1, true); w.put(1, {3}, 0, true); w.put(2, {1, 2}, 2, false); w.verify(); int D = c.thorough() ? 5 : 3; for (int d = 0; d < D; ++d) w.op(S); }
// every shape: the gradient starts as zeros of the shape of the data
SCENARIO(shapes, 2) { int r = c.range(1, 4); Sh s(r); for (auto& d : s) d = c.pick(std::vector<int>{1, 2, 3, 7, 8}); World w(c); c.tell(sstr(s)); w.put(0, s, c.choose(3), true); w.verify(); dw::Parameter q = w.h[0]; w.h.push_back(q); w.m.push_back(w.m[0]); w.verify(); }
SCENARIO(large, 1) { Sh s{c.pick(std::vector<int>{63, 64, 1000, 1024, 4096, 65536, 1000003})}; World w(c); c.tell(sstr(s)); w.put(0, s, 2, true); w.verify(); }
// every word of one or two operations, repeated many hundred times on the same handles
SCENARIO(repeated, 2) {
    World w(c); w.put(0, {2, 2}, 2, true); w.put(1, {3}, 0, false); w.verify(); int N = c.thorough() ? 1100 : 300, L = c.range(1, 2), ops[2]; for (int i = 0; i < L; ++i) ops[i] = c.choose(12); c.tell("repeated ", N, " times");
    for (int k = 0; k < N; ++k) for (int j = 0; j < L; ++j) { int o = ops[j], i = o % 2;
        switch (o / 2) { case 0: w.put(i, k % 2 ? Sh{3} : Sh{2, 2}, k % 3, false); break; case 1: w.h[i] = w.h[1 - i]; w.m[i] = w.m[1 - i]; break; case 2: w.h[i].train(k % 2); w.m[i]->tr = k % 2; break; case 3: { auto& t = w.h[i].data(); for (size_t q = 0; q < t.total(); ++q) w.m[i]->v[q] = t.data()[q] = float(k * 8 + q); break; } case 4: { auto& t = w.h[i].grad(); for (size_t q = 0; q < t.total(); ++q) w.m[i]->g[q] = t.data()[q] = -float(k * 8 + q); break; } default: { dw::Parameter t = w.h[i]; w.h[i] = w.h[1 - i]; w.h[i] = t; } }
        w.verify(); }
}
