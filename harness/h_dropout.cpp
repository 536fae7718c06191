// C13: Dropout under every generator answer and pass/mode history.
#include "fresh.hpp"
using namespace draws;
static float as_uniform(uint32_t u) { struct E { using result_type = uint32_t; uint32_t v; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return ~0u; } uint32_t operator()() { return v; } } e{u}; std::uniform_real_distribution<float> d(0.f, 1.f); return d(e); }
static Lay make(const Sh& s, float p) { return Lay::make(dw::Dropout(p, "d"), {s}); }
static const std::vector<float> P = {0.f, 0.5f, 0.25f, 0.1f, 0.2f, 0.9f, 0.75f, 1e-4f, 1e-7f, 0.97f, 0.999f};
static bool near(float got, double ref) { if (std::isfinite(ref) && std::fabs(ref) > 3.4028235e38) return std::isinf(got) && (got > 0) == (ref > 0); return close(got, ref, 3e-7, 1e-45); }
// draws around p: the largest below p, p itself, the next one up, and the ends
static std::vector<uint32_t> around(float p) {
    std::vector<uint32_t> v{LOW, HIGH, MID, 1};
    uint64_t lo = 0, hi = 1ull << 32; // first u whose uniform is >= p
    while (lo < hi) { uint64_t m = (lo + hi) / 2; if (as_uniform(uint32_t(m)) >= p) hi = m; else lo = m + 1; }
    if (lo < (1ull << 32)) v.push_back(uint32_t(lo)); if (lo) v.push_back(uint32_t(lo - 1)); if (lo + 4096 < (1ull << 32)) v.push_back(uint32_t(lo + 4096)); if (lo > 4096) v.push_back(uint32_t(lo - 4096));
    return v;
}
static Vec inputs(size_t n, int pat) {
    static const float S[] = {1.f, -2.f, 3.5f, 0.f, -0.f, 1e30f, -1e-30f, INFINITY, 7.f, 0.125f};
    return pat == 0 ? gen(n, [](size_t i) { return 1.0 + i; }) : pat == 3 ? gen(n, [](size_t i) { static const float T[] = {INFINITY, NAN, -INFINITY, 1e37f, -1e37f, 1e-30f}; return T[i % 6]; }) : gen(n, [&](size_t i) { return S[(i + pat) % 10]; });
}
// One training pass with given draws; checks it and returns the kept mask.
static Keep none;
static std::vector<bool> train_pass(vp::Ctx& c, Lay& l, const Sh& s, float p, const std::vector<uint32_t>& d, const Vec& x, dw::Tensor* out = nullptr, Keep& keep = none) {
    size_t n = prod(s);
    set([&](uint64_t k) { return d[k % d.size()]; });
    auto tx = keep("x", s, x), ty = keep("y", s, Vec(n, NAN)); std::vector<dw::Tensor> o{ty};
    l.impl->forward({tx}, o); c.step();
    uint64_t used = count(); expect_same(c, "input", vals(tx), x);
    Vec y = vals(o[0]); std::vector<bool> kept(n); size_t below = 0, dropped = 0;
    for (size_t i = 0; i < n; ++i) {
        bool scaled = near(y[i], double(x[i]) / (1.0 - p)), zero = y[i] == 0;
        if (!scaled && !zero) c.fail("output[" + std::to_string(i) + "] = " + fstr(y[i]) + " is neither 0 nor input/(1-p) = " + fstr(x[i] / (1 - p)));
        kept[i] = scaled && !(zero && x[i] != 0); dropped += !kept[i];
    }
    if (p == 0) c.check(dropped == 0, "p=0 dropped an element");
    c.check(used > 0, "a training pass made no fresh draw");
    bool amb = false; for (float v : x) amb |= v == 0;
    if (used == n && !amb) { for (size_t i = 0; i < n; ++i) below += as_uniform(d[i % d.size()]) < p; c.check(below == dropped, std::to_string(below) + " draws are below p but " + std::to_string(dropped) + " elements were dropped"); }
    if (out) *out = ty;
    return kept;
}
static void back(vp::Ctx& c, Lay& l, const Sh& s, float p, const std::vector<bool>& kept, int salt, Keep& keep = none) {
    size_t n = prod(s); Vec go = ints(n, salt, 9), old = ints(n, salt + 1, 5); auto tgo = keep("go", s, go), tgi = keep("gi", s, old), tx = mk(s, Vec(n, 1.f)), ty = mk(s, Vec(n, 1.f));
    l.backward({tx}, ty, tgo, {tgi}); c.step(); Vec g = vals(tgi);
    for (size_t i = 0; i < n; ++i) { double e = old[i] + (kept[i] ? go[i] / (1.0 - p) : 0.0); if (!close(g[i], e, 1e-6, 1e-6)) c.fail("grad_input[" + std::to_string(i) + "] = " + fstr(g[i]) + ", expected " + fstr(e) + (kept[i] ? " (kept)" : " (dropped)")); }
    expect_same(c, "grad_output", vals(tgo), go);
}
static void eval_pass(vp::Ctx& c, Lay& l, const Sh& s, const Vec& x, Keep& keep = none) {
    auto tx = keep("x", s, x), ty = keep("y", s, Vec(x.size(), NAN)); std::vector<dw::Tensor> o{ty}; l.impl->forward({tx}, o); c.step(); expect_same(c, "evaluation output", vals(ty), x); expect_same(c, "input", vals(tx), x);
}
// every element answers to draws of its own: the 2^n draw patterns give the 2^n masks
SCENARIO(own_draws, 2) {
    static const std::vector<Sh> S = {{1}, {2}, {3}, {2, 2}, {1, 5}, {1, 2, 3, 1}, {7}, {2, 4}};
    Sh s = c.pick(S); float p = c.pick(P); if (p == 0) throw vp::Skip{}; size_t n = prod(s); c.tell("Dropout p=", p, " ", sstr(s), " all drop/keep draw patterns");
    Lay l = make(s, p); l.train(true); std::set<std::vector<bool>> seen; Vec x = inputs(n, 0);
    set([](uint64_t) { return HIGH; }); l.forward({mk(s, x)}, s); size_t per = std::max<size_t>(1, (count() + n - 1) / n);
    for (unsigned m = 0; m < (1u << n); ++m) {
        std::vector<uint32_t> d; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < per; ++k) d.push_back(m >> i & 1 ? HIGH : LOW);
        auto kept = train_pass(c, l, s, p, d, x); seen.insert(kept); back(c, l, s, p, kept, m + 1); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), bits(p)), m));
    }
    c.check(seen.size() == (1u << n), std::to_string(1u << n) + " draw patterns gave only " + std::to_string(seen.size()) + " different masks");
}
// every combination of draws around the threshold
SCENARIO(threshold, 2) {
    float p = c.pick(P); auto A = around(p); int n = c.range(1, c.thorough() ? 5 : 4), pat = c.choose(4); Sh s{n}; std::vector<uint32_t> d; for (int i = 0; i < n; ++i) d.push_back(c.pick(A));
    c.tell("Dropout p=", p, " n=", n, " input pattern ", pat); uint64_t h = vp::mix(bits(p), n * 4 + pat); for (auto v : d) h = vp::mix(h, v); c.state(h);
    Lay l = make(s, p); l.train(true); Vec x = inputs(n, pat); auto k = train_pass(c, l, s, p, d, x); bool amb = false; for (float v : x) amb |= v == 0; if (!amb) back(c, l, s, p, k, 3);
}
// every length around the vector width, every position of one dropped / one kept element
SCENARIO(lengths, 2) {
    int n = c.range(1, c.thorough() ? 70 : 40); float p = c.pick(P); if (p == 0) throw vp::Skip{}; Sh s = n % 2 ? Sh{n} : Sh{2, n / 2}; Lay l = make(s, p); Vec x = inputs(n, 0);
    c.tell("Dropout p=", p, " n=", n, " one element dropped / kept at every position");
    for (int i = 0; i < n; ++i) for (int inv = 0; inv < 2; ++inv) { std::vector<uint32_t> d(n, inv ? LOW : HIGH); d[i] = inv ? HIGH : LOW; auto k = train_pass(c, l, s, p, d, x); back(c, l, s, p, k, i + 5); c.state(vp::mix(vp::mix(n, bits(p)), i * 2 + inv)); }
}
SCENARIO(large, 1) {
    static const std::vector<Sh> S = {{1000}, {64, 100}, {3, 5, 17, 19}, {2, 40000}, {2048}, {5000}, {131075}, {300, 1, 2, 2}, {1, 300, 3, 3}}; Sh s = c.pick(S); float p = c.pick(P); size_t n = prod(s); c.tell("Dropout p=", p, " ", sstr(s)); Lay l = make(s, p); Vec x = gen(n, [](size_t i) { return 1 + i % 13; });
    for (int r = 0; r < 3; ++r) { std::vector<uint32_t> d(n); for (size_t i = 0; i < n; ++i) d[i] = uint32_t(vp::mix(r + 1, i) >> 20); auto k = train_pass(c, l, s, p, d, x); back(c, l, s, p, k, r); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), bits(p)), r)); }
    l.train(false); eval_pass(c, l, s, x);
}
// at large sizes every element still answers to draws of its own: over 64 passes no two elements share their keep/drop history
SCENARIO(own_draws_large, 1) {
    static const std::vector<Sh> S = {{600}, {1500}, {4, 1100}, {3, 5, 17, 19}, {20011}, {131075}}; Sh s = c.pick(S); size_t n = prod(s); c.tell("Dropout p=0.5 ", sstr(s), " 64 training passes"); Lay l = make(s, 0.5f); l.train(true);
    Vec x(n, 1.f); std::vector<std::pair<uint64_t, size_t>> sig(n); auto tx = mk(s, x); std::vector<dw::Tensor> o{dw::Tensor(s)};
    for (int r = 0; r < 64; ++r) { set([&](uint64_t k) { uint64_t z = (k + 1) * 0x9e3779b97f4a7c15ull + (r + 1) * 0xd1342543de82ef95ull; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return uint32_t((z ^ z >> 31) >> 16); }); l.impl->forward({tx}, o); c.step(); const float* y = o[0].data(); for (size_t i = 0; i < n; ++i) sig[i].first = sig[i].first << 1 | (y[i] != 0); }
    for (size_t i = 0; i < n; ++i) sig[i].second = i; std::sort(sig.begin(), sig.end());
    for (size_t i = 1; i < n; ++i) if (sig[i].first == sig[i - 1].first) c.fail("elements " + std::to_string(sig[i - 1].second) + " and " + std::to_string(sig[i].second) + " are always dropped together: they share a draw");
    c.state(vp::hash_str(sstr(s)));
}
// histories of train/eval passes and backward; each train pass has its own draws
SCENARIO(histories, 3) {
    float p = c.pick(std::vector<float>{0.f, 0.5f, 0.2f}); int D = c.thorough() ? 7 : 5; Sh s{3}; Lay l = make(s, p); c.tell("Dropout p=", p, " {3}");
    static const std::vector<Vec> X = {{1, 2, 3}, {-4, 5, -6}}; Vec special{NAN, -INFINITY, -0.f};
    bool trained = false; std::vector<bool> kept; uint64_t st = bits(p); static const char* N[] = {"train pass, draws low/high/low", "train pass, draws high/low/high", "eval pass", "eval pass on special values", "backward"};
    for (int d = 0; d < D; ++d) {
        int op = c.choose(5); if (op == 4 && !trained) throw vp::Skip{}; c.tell(N[op]);
        if (op < 2) { l.train(true); kept = train_pass(c, l, s, p, op ? std::vector<uint32_t>{HIGH, LOW, HIGH} : std::vector<uint32_t>{LOW, HIGH, LOW}, X[op]); trained = true; }
        else if (op < 4) { l.train(false); eval_pass(c, l, s, op == 3 ? special : X[d % 2]); }
        else { if (c.thorough()) l.train(true); back(c, l, s, p, kept, d); }
        st = vp::mix(st, op); c.state(st);
    }
}
// one layer over tensors of changing shapes, all sequences of training and evaluation passes, each with a backward pass of the latest training pass; and many hundred passes
static const std::vector<Sh> SER = {{2, 3}, {3, 2}, {7}, {1, 2, 2, 2}, {1}};
static std::vector<uint32_t> scattered(size_t n, int d) { std::vector<uint32_t> r(n); for (size_t i = 0; i < n; ++i) r[i] = uint32_t(vp::mix(d + 1, i) >> 20); return r; }
SCENARIO(calls, 3) {
    float p = c.pick(std::vector<float>{0.5f, 0.2f}); Lay l = make(SER[0], p); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = bits(p) + k.on; c.tell("Dropout p=", p, k.on ? " tensors overwritten in place" : ""); int last = -1; std::vector<bool> kept;
    for (int d = 0; d < D; ++d) { int i = c.choose(5), ev = c.choose(2); Sh s = SER[i]; c.tell(ev ? "evaluation " : "training ", sstr(s)); Vec x = gen(prod(s), [&](size_t q) { return 1.0 + q + d; }); l.train(!ev); if (ev) eval_pass(c, l, s, x, k); else { kept = train_pass(c, l, s, p, scattered(prod(s), d * 5 + i), x, nullptr, k); last = i; } if (last >= 0) { if (ev && d % 2) l.train(true); back(c, l, SER[last], p, kept, d, k); } st = vp::mix(vp::mix(st, i), ev); c.state(st); }
}
SCENARIO(long_run, 2) {
    float p = c.pick(std::vector<float>{0.5f, 0.2f, 0.9f}); int sc = c.choose(SCHEDULES), mode = c.choose(3); Lay l = make(SER[0], p); Keep k; k.on = c.flip(); int N = c.thorough() ? 30000 : 2100; c.tell("Dropout p=", p, " ", N, " passes, schedule ", sc, ", mode schedule ", mode);
    for (int d = 0; d < N; ++d) { Sh s = SER[scheduled(sc, d, 5)]; bool tr = mode == 0 || (mode == 1 ? d % 5 != 4 : d / 300 % 2 == 0); Vec x = gen(prod(s), [&](size_t q) { return 1.0 + q + d % 50; }); l.train(tr); if (!tr) eval_pass(c, l, s, x, k); else { auto kept = train_pass(c, l, s, p, scattered(prod(s), d), x, nullptr, k); back(c, l, s, p, kept, d, k); } c.states_n(1); }
}
// two layers whose passes interleave: each backward belongs to the latest training pass of its own layer
SCENARIO(two, 3) {
    static const std::vector<std::array<float, 2>> PP = {{0.5f, 0.5f}, {0.5f, 0.2f}, {0.2f, 0.75f}}; auto p = c.pick(PP); static const std::vector<Sh> S = {{2, 3}, {6}, {2, 2}}; std::vector<Lay> l; for (int i = 0; i < 2; ++i) l.push_back(make(S[0], p[i])); Keep k[2]; k[0].on = k[1].on = c.flip(); int D = c.thorough() ? 6 : 4; uint64_t st = bits(p[0]) + bits(p[1]) * 3 + k[0].on; Sh last[2]; std::vector<bool> kept[2]; c.tell("Dropout p=", p[0], " and p=", p[1]);
    for (int d = 0; d < D; ++d) {
        int w = c.choose(2), op = c.choose(5); Sh s = S[op % 3]; Vec x = gen(prod(s), [&](size_t q) { return 1.0 + q + d; });
        if (op < 3) { c.tell("layer ", w, " training ", sstr(s)); l[w].train(true); kept[w] = train_pass(c, l[w], s, p[w], scattered(prod(s), d * 5 + w), x, nullptr, k[w]); last[w] = s; }
        else if (op == 3) { c.tell("layer ", w, " evaluation"); l[w].train(false); eval_pass(c, l[w], s, x, k[w]); }
        else { if (last[w].empty()) throw vp::Skip{}; c.tell("layer ", w, " backward"); back(c, l[w], last[w], p[w], kept[w], d, k[w]); }
        st = vp::mix(vp::mix(st, w), op); c.state(st);
    }
}
// the draws of every pass are new ones
static std::vector<fresh::Client> clients() { struct W { Lay a = make({2, 3}, 0.5f), b = make({4}, 0.2f); std::vector<Lay> c; }; auto w = std::make_shared<W>(); auto run = [](Lay& l, const Sh& s) { l.train(true); l.forward({dw::Tensor::constant(s, 1)}, s); };
    return {{"A", [=] { run(w->a, {2, 3}); }}, {"A smaller", [=] { run(w->a, {1, 2}); }}, {"A larger", [=] { run(w->a, {5, 3}); }}, {"B", [=] { run(w->b, {4}); }}, {"new layer", [=] { w->c.push_back(make({3, 2}, 0.5f)); run(w->c.back(), {3, 2}); }}, {"A in evaluation mode", [=] { w->a.train(false); w->a.forward({dw::Tensor::constant({2, 3}, 1)}, {2, 3}); }, false}, {"A backward", [=] { w->a.train(true); auto x = dw::Tensor::constant({2, 3}, 1); auto y = w->a.forward({x}, {2, 3}); std::vector<dw::Tensor> g{dw::Tensor::zeros({2, 3})}; w->a.backward({x}, y, dw::Tensor::constant({2, 3}, 1), g); }}}; }
SCENARIO(fresh_draws, 2) { auto cl = clients(); fresh::sequences(c, cl, c.thorough() ? 5 : 4); }
SCENARIO(fresh_long, 1) { auto cl = clients(); fresh::many(c, cl[c.choose(5)], 1000); }
