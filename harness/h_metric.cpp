// C26: accuracy against counting.
#include "dwh.hpp"
#include <deepworks/metrics.hpp>
namespace M = dw::metric;
static void one(vp::Ctx& c, int R, int K, const Vec& p, const std::vector<int>& label, const Sh& lsh) {
    int hit = 0; for (int i = 0; i < R; ++i) { int a = 0; for (int j = 1; j < K; ++j) if (p[i * K + j] > p[i * K + a]) a = j; hit += a == label[i]; }
    double e = double(hit) / R; auto P = mk({R, K}, p); Vec lv(label.begin(), label.end()); auto T = mk(lsh, lv); float r = M::accuracy(P, T); c.step(2); c.check(close(r, e, 1e-6, 0), "accuracy " + fstr(r) + ", expected " + fstr(e));
    for (int oh = 0; oh < 2; ++oh) { Vec o(size_t(R) * K, oh ? -1.f : 0.f); for (int i = 0; i < R; ++i) o[i * K + label[i]] = oh ? 0.25f : 1.f; auto O = mk({R, K}, o); r = M::accuracyOneHot(P, O); c.check(close(r, e, 1e-6, 0), "accuracyOneHot " + fstr(r) + ", expected " + fstr(e)); expect_same(c, "one-hot labels", vals(O), o); }
    expect_same(c, "predictions", vals(P), p); expect_same(c, "labels", vals(T), lv);
}
// every ordering of every row, every label
SCENARIO(orders, 3) {
    int R = c.range(1, 3), K = c.range(1, R == 1 ? 6 : R == 2 ? 4 : 3), vs = c.choose(3); static const float V[3][6] = {{1, 2, 3, 4, 5, 6}, {-6, -5, -4, -3, -2, -1}, {-3.4e38f, -1, -1e-30f, 1e-30f, 0.5f, 3.4e38f}}; Vec p; std::vector<int> l;
    for (int i = 0; i < R; ++i) { std::vector<float> rest(V[vs], V[vs] + K); while (!rest.empty()) { int j = c.choose((int)rest.size()); p.push_back(rest[j]); rest.erase(rest.begin() + j); } l.push_back(c.choose(K)); }
    c.tell(R, "x", K); uint64_t h = vp::mix(R, K); for (int x : l) h = vp::mix(h, x); c.state(vp::mix(h, hv(p))); one(c, R, K, p, l, R % 2 ? Sh{R, 1} : Sh{R});
}
// larger widths: the maximum at every position, labels hit / one off
SCENARIO(widths, 2) { int K = c.range(1, c.thorough() ? 130 : 70), R = c.range(1, 4), neg = c.choose(2); c.tell(R, "x", K, " maximum at every position"); for (int m = 0; m < K; ++m) for (int d = 0; d < 3; ++d) { Vec p(size_t(R) * K); std::vector<int> l; for (int i = 0; i < R; ++i) { int mx = (m + i * 5) % K; for (int j = 0; j < K; ++j) p[i * K + j] = float((j * 37 + 11) % 131) / 256 - (neg ? 2 : 0); p[i * K + mx] = neg ? -0.5f : 1.f; l.push_back((mx + (i + d) % 2) % K); } one(c, R, K, p, l, {R, 1}); c.state(vp::mix(vp::mix(K, R), (m * 3 + d) * 2 + neg)); } }
SCENARIO(rows, 2) { int R = c.range(1, 150), K = c.pick(std::vector<int>{1, 2, 10, 17}); c.tell(R, "x", K); for (int h = 0; h < 4; ++h) { Vec p(size_t(R) * K); std::vector<int> l; for (int i = 0; i < R; ++i) { int mx = (i * 7 + h) % K; for (int j = 0; j < K; ++j) p[i * K + j] = -float((j * 37 + i) % 131); p[i * K + mx] = 1.f; l.push_back(h == 0 ? mx : h == 1 ? (mx + 1) % K : h == 2 ? (i == R - 1 ? mx : (mx + 1) % K) : (i == 0 ? (mx + 1) % K : mx)); } one(c, R, K, p, l, h % 2 ? Sh{R} : Sh{R, 1}); c.state(vp::mix(vp::mix(R, K), h)); } }
// many rows / many columns; every row hits, every second row hits, every row misses, the last row alone misses
SCENARIO(large, 2) {
    static const std::vector<A2> S = {{10000, 10}, {70000, 3}, {5, 3000}, {300, 1000}, {33000, 2}, {1, 70000}, {2, 40000}, {129, 129}, {300, 257}}; A2 s = c.pick(S); int R = s[0], K = s[1], kind = c.choose(5); Vec p(size_t(R) * K); std::vector<int> l;
    for (int i = 0; i < R; ++i) { float* r = p.data() + size_t(i) * K; for (int j = 0; j < K; ++j) r[j] = float((j * 12289 + i * 7) % 99991); int m = kind == 4 ? K - 1 - i % K : (i * 31 + K - 1) % K; r[m] = 1e6f; bool hit = kind == 0 || kind == 4 || (kind == 1 && i % 2) || (kind == 3 && i + 1 < R); l.push_back(hit ? m : (m + 1) % K); }
    c.tell(R, "x", K, " hit pattern ", kind); c.state(vp::mix(vp::mix(R, K), kind)); one(c, R, K, p, l, {R, 1});
}
SCENARIO(huge, 1) { int R = (1 << 24) + (1 << 19), kind = c.choose(2); c.tell(R, " rows"); Vec p(size_t(R) * 2), o(p.size()), l(R); size_t hit = 0; for (int i = 0; i < R; ++i) { int m = i & 1; p[2 * size_t(i) + m] = 1; bool h = kind == 0 || i % 64; hit += h; l[i] = float(h ? m : 1 - m); o[2 * size_t(i) + int(l[i])] = 1; } auto P = mk({R, 2}, p), T = mk({R}, l), O = mk({R, 2}, o); c.state(kind); c.step(2); float a = M::accuracy(P, T), b = M::accuracyOneHot(P, O); double e = double(hit) / R; c.check(close(a, e, 1e-6, 0), "accuracy " + fstr(a) + ", expected " + fstr(e)); c.check(close(b, e, 1e-6, 0), "accuracyOneHot " + fstr(b) + ", expected " + fstr(e)); }
SCENARIO(rejected, 2) {
    int R = c.range(1, 4), K = c.range(1, 4), w = c.choose(9); Sh p{R, K}, t{R}; bool oh = w >= 4;
    switch (w) { case 0: t = {R + 1}; break; case 1: if (R == 1) throw vp::Skip{}; t = {R - 1}; break; case 2: p = {R * K}; break; case 3: p = {R, K, 1}; break; case 4: t = {R, K + 1}; break; case 5: t = {R + 1, K}; break; case 6: t = {R * K}; break; case 7: if (R == K) throw vp::Skip{}; t = {K, R}; break; default: p = t = {R, K, 1}; }
    c.tell("predictions ", sstr(p), " labels ", sstr(t)); c.state(vp::mix(vp::mix(R, K), w)); auto P = mk(p, Vec(prod(p), 1.f)), T = mk(t, Vec(prod(t), 0.f)); c.step(); c.check(throws([&] { if (oh) M::accuracyOneHot(P, T); else M::accuracy(P, T); }), "mismatching shapes were accepted"); expect_same(c, "predictions", vals(P), Vec(prod(p), 1.f)); expect_same(c, "labels", vals(T), Vec(prod(t), 0.f));
}
// the same tensors over and over, their contents changed in place
SCENARIO(repeated, 3) {
    int K = c.pick(std::vector<int>{2, 3}), R = c.pick(std::vector<int>{1, 3, 70}); auto P = mk({R, K}, Vec(size_t(R) * K, 0)), T = mk({R, 1}, Vec(R, 0)), O = mk({R, K}, Vec(size_t(R) * K, 0)); std::vector<int> best(R), lab(R); uint64_t st = vp::mix(R, K); int D = c.thorough() ? 7 : 5; static const char* NM[] = {"accuracy", "accuracyOneHot", "move one maximum", "change one label", "change all"}; c.tell(R, "x", K);
    auto put = [&] { for (int i = 0; i < R; ++i) { for (int j = 0; j < K; ++j) { P.data()[i * K + j] = j == best[i] ? 0.75f : 0.125f * (j % 2); O.data()[i * K + j] = j == lab[i]; } T.data()[i] = float(lab[i]); } }; put();
    for (int d = 0; d < D; ++d) { int op = c.choose(5); c.tell(NM[op]); if (op == 2) { best[R / 2] = (best[R / 2] + 1) % K; put(); } else if (op == 3) { lab[R / 3] = (lab[R / 3] + 1) % K; put(); } else if (op == 4) { for (int i = 0; i < R; ++i) { best[i] = (best[i] + i % 2) % K; lab[i] = (lab[i] + 1) % K; } put(); } else { int hit = 0; for (int i = 0; i < R; ++i) hit += best[i] == lab[i]; float r = op ? M::accuracyOneHot(P, O) : M::accuracy(P, T); c.step(); c.check(close(r, double(hit) / R, 1e-6, 0), std::string(NM[op]) + " gives " + fstr(r) + ", expected " + fstr(double(hit) / R)); } st = vp::mix(st, op); c.state(st); }
}
