// C25: CrossEntropyLoss against the formula.
#include "dwh.hpp"
#include <deepworks/loss.hpp>
#include <map>
using L = dw::loss::CrossEntropyLoss;
static const std::vector<float> PV = {0.5f, 1.f, 0.f, 1e-3f, 0.9999999f, 1.17549435e-38f, 1e-30f, 0.3f};
struct In { int B, K; Vec p, t; };
// Buffers kept over several calls: the caller overwrites the same tensors in place.
struct Bufs { std::map<Sh, dw::Tensor> p, t, g; static dw::Tensor get(std::map<Sh, dw::Tensor>& m, const Sh& s) { auto it = m.find(s); if (it == m.end()) it = m.emplace(s, dw::Tensor(s)).first; return it->second; } };
// what grad_output holds before a backward call: it must not matter
static float junk(int kind, size_t i, size_t n, bool hot) { switch (kind) { case 0: return i % 2 ? NAN : 1e30f; case 1: return i ? 7.f : 0.f; case 2: return i + 1 == n ? -3.f : 0.f; case 3: return hot ? 0.f : 2.f; case 4: return hot ? 5.f : 0.f; default: return 0.f; } }
static void call(vp::Ctx& c, L& l, const In& q, int which, Bufs* b = nullptr, int kind = 0) { // 0 forward, 1 backward, 2 both
    auto P = b ? Bufs::get(b->p, {q.B, q.K}) : mk({q.B, q.K}, q.p), T = b ? Bufs::get(b->t, {q.B, 1}) : mk({q.B, 1}, q.t); if (b) setv(P, q.p), setv(T, q.t);
    if (which != 1) {
        float r = l.forward(P, T); c.step(); double e = 0, mag = 0; for (int i = 0; i < q.B; ++i) { double v = -std::log(double(q.p[i * q.K + int(q.t[i])])); e += v / q.B; mag += std::fabs(v) / q.B; }
        if (!close(r, e, 0, mag * (4e-6 + q.B * 3e-8) + 1e-7)) c.fail("loss " + fstr(r) + ", expected " + fstr(e));
    }
    if (which != 0) {
        auto G = b ? Bufs::get(b->g, {q.B, q.K}) : dw::Tensor(Sh{q.B, q.K}); if (kind < 5) for (size_t i = 0; i < q.p.size(); ++i) G.data()[i] = junk(kind, i, q.p.size(), int(i % q.K) == int(q.t[i / q.K])); l.backward(P, T, G); c.step();
        for (int i = 0; i < q.B; ++i) for (int j = 0; j < q.K; ++j) { double e = j == int(q.t[i]) ? -1.0 / (double(q.B) * q.p[i * q.K + j]) : 0.0; float g = G.data()[i * q.K + j]; bool ok = std::fabs(e) > 3.4e38 ? g == -INFINITY || close(g, e, 1e-6, 0) : close(g, e, 1e-6, 1e-45) || (q.p[i * q.K + j] != 0 && std::fabs(1.0 / q.p[i * q.K + j]) > 3.4e38); if (!ok) c.fail("gradient[" + std::to_string(i) + "][" + std::to_string(j) + "] = " + fstr(g) + ", expected " + fstr(e)); if (j != int(q.t[i])) c.check(g == 0, "non-target gradient"); }
    }
    expect_same(c, "predictions", vals(P), q.p); expect_same(c, "target", vals(T), q.t);
}
static In pattern(int B, int K, int pat) { In q{B, K, Vec(size_t(B) * K), Vec(B)}; for (size_t i = 0; i < q.p.size(); ++i) q.p[i] = pat == 0 ? float(1 + (i * 7 + i / K) % 97) / 128.f : pat == 1 ? PV[(i * 5 + i / 3) % PV.size()] : 1.f / K; for (int i = 0; i < B; ++i) q.t[i] = float(pat == 0 ? (i * 3 + 1) % K : pat == 1 ? K - 1 - (i % K) : (i % 2 ? K - 1 : 0)); return q; }
SCENARIO(targets, 3) { // every target assignment
    int B = c.range(1, c.thorough() ? 5 : 4), K = c.range(1, c.thorough() ? 5 : 4); In q = pattern(B, K, c.choose(3)); for (int i = 0; i < B; ++i) q.t[i] = float(c.choose(K)); c.tell("batch ", B, " classes ", K); uint64_t h = vp::mix(B, K); c.state(vp::mix(vp::mix(h, hv(q.t)), hv(q.p))); L l; call(c, l, q, 2);
}
SCENARIO(values, 3) { // every probability assignment
    static const std::vector<A2> S = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {1, 4}}; A2 s = c.pick(S); In q{s[0], s[1], Vec(s[0] * s[1]), Vec(s[0])}; for (auto& v : q.p) v = c.pick(PV); for (auto& t : q.t) t = float(c.choose(s[1])); c.tell("batch ", s[0], " classes ", s[1]); c.state(vp::mix(vp::mix(s[0], hv(q.t)), hv(q.p))); L l; call(c, l, q, 2);
}
SCENARIO(shapes, 2) { int B = c.range(1, c.thorough() ? 70 : 40), K = c.range(1, c.thorough() ? 70 : 40); c.tell("batch ", B, " classes ", K); for (int pat = 0; pat < 3; ++pat) { In q = pattern(B, K, pat); L l; for (int k = 0; k < 5; ++k) call(c, l, q, 2, nullptr, k); c.state(vp::mix(vp::mix(B, K), pat)); } }
SCENARIO(large, 1) { static const std::vector<A2> S = {{1, 1000}, {1000, 10}, {129, 257}, {70000, 2}, {3, 20000}, {1025, 3}, {2050, 5}, {5000, 4}, {3, 1001}, {9, 1030}, {5, 2050}}; A2 s = c.pick(S); In q = pattern(s[0], s[1], c.choose(3)); c.tell("batch ", s[0], " classes ", s[1]); c.state(vp::mix(vp::mix(s[0], s[1]), hv(q.p))); L l; call(c, l, q, 2); }
SCENARIO(histories, 3) { // one loss object, changing shapes, forward/backward in any order
    static const std::vector<A2> S = {{2, 3}, {3, 2}, {1, 6}, {4, 3}, {2, 9}}; L l; bool keep = c.flip(); uint64_t st = 1 + keep; int D = c.thorough() ? 5 : 4; Bufs b; if (keep) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) { int s = c.choose(5), w = c.choose(3); In q = pattern(S[s][0], S[s][1], d % 3); c.tell(a2s(S[s]), w == 0 ? " forward" : w == 1 ? " backward" : " both"); call(c, l, q, w, keep ? &b : nullptr, keep && b.g.count(Sh{q.B, q.K}) ? 5 + d % 2 : d % 5); st = vp::mix(st, s * 3 + w); c.state(st); }
}
SCENARIO(rejected, 2) { // mismatching shapes throw, leave grad_output alone and do not disturb later calls
    int B = c.range(1, 4), K = c.range(1, 4), w = c.choose(12), hist = c.choose(2); L l; In ok = pattern(B, K, 0); if (hist) call(c, l, ok, 2);
    Sh p{B, K}, t{B, 1}, g{B, K};
    switch (w) { case 0: t = {B + 1, 1}; break; case 1: t = {B}; break; case 2: t = {B, 2}; break; case 3: t = {B, 1, 1}; break; case 4: p = {B * K}; break; case 5: p = {B, K, 1}; break; case 6: p = {B, 1, K}; g = p; break; case 7: if (B == 1) throw vp::Skip{}; t = {1, B}; break; case 8: g = {B + 1, K}; break; case 9: g = {B, K + 1}; break; case 10: g = {B * K}; break; default: if (B == K) throw vp::Skip{}; g = {K, B}; }
    c.tell("predictions ", sstr(p), " target ", sstr(t), " grad_output ", sstr(g)); c.state(vp::mix(vp::mix(B, K), w * 2 + hist)); auto P = mk(p, Vec(prod(p), 0.5f)), T = mk(t, Vec(prod(t), 0.f)), G = mk(g, Vec(prod(g), 3.25f)); c.step(2);
    if (w < 8) c.check(throws([&] { l.forward(P, T); }), "forward accepted mismatching shapes"); c.check(throws([&] { l.backward(P, T, G); }), "backward accepted mismatching shapes"); expect_same(c, "grad_output of a rejected call", vals(G), Vec(prod(g), 3.25f)); expect_same(c, "predictions", vals(P), Vec(prod(p), 0.5f)); call(c, l, ok, 2);
}
// many thousand calls on one loss object
SCENARIO(long_run, 2) { static const std::vector<A2> S = {{2, 3}, {3, 2}, {1, 6}, {4, 3}, {2, 9}}; L l; int sc = c.choose(SCHEDULES), mode = c.choose(3), N = c.thorough() ? 70000 : 5000; bool keep = c.flip(); Bufs b; c.tell(N, " calls, schedule ", sc); for (int d = 0; d < N; ++d) { int s = scheduled(sc, d, 5); In q = pattern(S[s][0], S[s][1], d % 3); call(c, l, q, mode == 0 ? 2 : mode == 1 ? 0 : d % 3, keep ? &b : nullptr, keep && b.g.count(Sh{q.B, q.K}) ? 5 + d % 2 : d % 5); c.states_n(1); } }
// two loss objects with overlapping lives: every sequence of creating, destroying, copying and calling them
SCENARIO(two_objects, 3) {
    static const std::vector<A2> S = {{2, 3}, {3, 2}, {2, 3}}; std::unique_ptr<L> o[2]; Bufs b[2]; bool keep = c.flip(); uint64_t st = 1 + keep; int D = c.thorough() ? 6 : 5; if (keep) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) { int k = c.choose(2), op = c.choose(5); if (!o[k]) { if (op > 1 || (op == 1 && !o[1 - k])) throw vp::Skip{}; o[k] = op ? std::unique_ptr<L>(new L(*o[1 - k])) : std::unique_ptr<L>(new L); c.tell(op ? "copy" : "create", " ", k); st = vp::mix(st, k * 2 + op); continue; }
        if (op == 4) { o[k].reset(); c.tell("destroy ", k); } else { In q = pattern(S[op == 3 ? 1 : k * 2][0], S[op == 3 ? 1 : k * 2][1], (d + k) % 3); int w = op == 3 ? 2 : op; c.tell(k, w == 0 ? " forward" : w == 1 ? " backward" : " both"); call(c, *o[k], q, w, keep ? &b[k] : nullptr, d % 5); } st = vp::mix(st, k * 8 + op + 4); c.state(st); }
}
// more than 2^24 elements, where float arithmetic on positions rounds
SCENARIO(huge, 1) { static const std::vector<A2> S = {{70001, 241}, {17, 1000003}, {8500003, 2}}; A2 s = c.pick(S); In q = pattern(s[0], s[1], 0); for (int i = 0; i < q.B; ++i) q.t[i] = float(q.K - 1 - i % std::min(q.K, 13)); c.tell("batch ", s[0], " classes ", s[1]); c.state(vp::mix(s[0], s[1])); L l; call(c, l, q, 2); }

// between two calls a single target or probability changes
SCENARIO(one_changed, 3) {
    int B = c.range(1, c.thorough() ? 9 : 7), K = c.range(2, 4), keep = c.choose(2), what = c.choose(2), at = c.choose(what ? B * K : B), to = what ? c.choose(3) : c.choose(K), mode = c.choose(3); In q = pattern(B, K, 0); L l; Bufs b; c.tell("batch ", B, " classes ", K, what ? " probability " : " target ", at, keep ? " in place" : "");
    In r = q; if (what) r.p[at] = to == 0 ? q.p[at] / 2 : to == 1 ? 1.f : 0.75f; else r.t[at] = float(to); for (int d = 0; d < 4; ++d) call(c, l, d % 2 ? r : q, mode, keep ? &b : nullptr, keep ? 5 : 0); c.state(vp::mix(vp::mix(B * 8 + K, at * 4 + to), keep * 8 + what * 4 + mode));
}
