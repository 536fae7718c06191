// C29: initializers under every extreme generator answer.
#include "fresh.hpp"
#include <deepworks/nn.hpp>
#include <deepworks/initializers.hpp>
using namespace draws;
namespace I = dw::initializer;
static const int PAD = 16; static const float CAN = -12345.75f;
// runs f on a tensor over user memory surrounded by canaries, and g (the factory); returns both results
struct Guard { Vec mem; dw::Tensor t; size_t n; Guard(const Sh& s) : mem(prod(s) + 2 * PAD, CAN), t(s, mem.data() + PAD), n(prod(s)) { std::fill_n(t.data(), n, NAN); }
    Vec done(vp::Ctx& c, const Sh& s) { for (int i = 0; i < PAD; ++i) c.check(mem[i] == CAN && mem[PAD + n + i] == CAN, "memory outside the tensor was written"); c.check(t.shape() == s, "shape changed"); return Vec(mem.begin() + PAD, mem.begin() + PAD + n); } };
static Sh shape(vp::Ctx& c, int maxr, int maxd) { int r = c.range(1, maxr); Sh s(r); for (auto& d : s) d = c.range(1, maxd); return s; }
static void fixed(vp::Ctx& c, const Sh& s, float v) {
    c.tell("constant ", v, " ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), bits(v)));
    { Guard g(s); I::constant(g.t, v); for (float x : g.done(c, s)) if (bits(x) != bits(v)) c.fail("constant left " + fstr(x)); }
    { Guard g(s); I::zeros(g.t); for (float x : g.done(c, s)) if (bits(x) != 0) c.fail("zeros left " + fstr(x)); }
    auto t = dw::Tensor::constant(s, v); c.check(t.shape() == s, "factory shape"); for (float x : vals(t)) if (bits(x) != bits(v)) c.fail("Tensor::constant holds " + fstr(x));
    auto z = dw::Tensor::zeros(s); c.check(z.shape() == s, "factory shape"); for (float x : vals(z)) if (bits(x) != 0) c.fail("Tensor::zeros holds " + fstr(x));
    c.step(4);
}
static const std::vector<float> CV = {0.f, 1.f, -2.5f, 3.4e38f, 1e-45f, -0.f, INFINITY, NAN, 0.1f, 16777217.f, -3.7f};
SCENARIO(constants, 3) { Sh s = shape(c, 4, c.thorough() ? 5 : 3); fixed(c, s, c.pick(CV)); }
SCENARIO(constants_long, 1) { int n = c.range(1, 300); fixed(c, n % 3 ? Sh{n} : Sh{n / 3, 3}, c.pick(CV)); }
SCENARIO(constants_large, 1) { static const std::vector<Sh> S = {{70000}, {100, 784}, {64, 32, 3, 3}, {1, 1, 1000, 333}, {65536}, {256, 256}, {16, 16, 16, 16}, {131072}, {1024}, {2, 2048}, {1 << 20}, {(1 << 20) + 5}, {300000}}; Sh s = c.pick(S); fixed(c, s, c.pick(CV)); }

struct Kind { std::string name; float lo, hi; bool rel; std::function<void(dw::Tensor&)> f; std::function<dw::Tensor(const Sh&)> g; };
static Kind kind(const Sh& s, int k) {
    static const float R[][2] = {{0, 1}, {-1, 1}, {2, 5}, {-7.5f, -7.f}, {1e-3f, 1e6f}, {3, 3}, {2, 3}, {-3, 1}};
    if (k == 0) { double fan = s.size() == 2 ? double(s[0]) + s[1] : double(prod(s)) / s[0] + s[0]; float a = float(std::sqrt(6.0 / fan)); return {"xavierUniform", -a, a, true, [](dw::Tensor& t) { I::xavierUniform(t); }, [](const Sh& s) { return dw::Tensor::xavierUniform(s); }}; }
    if (k == 1) return {"uniform()", 0, 1, false, [](dw::Tensor& t) { I::uniform(t); }, [](const Sh& s) { return dw::Tensor::uniform(s); }};
    float a = R[k - 1][0], b = R[k - 1][1];
    return {"uniform(" + fstr(a) + "," + fstr(b) + ")", a, b, false, [a, b](dw::Tensor& t) { I::uniform(t, a, b); }, [a, b](const Sh& s) { return dw::Tensor::uniform(s, a, b); }};
}
static const int KINDS = 9;
static Vec run(vp::Ctx& c, const Kind& k, const Sh& s, bool factory, std::function<uint32_t(uint64_t)> d) {
    set(d); Vec r;
    if (factory) { auto t = k.g(s); c.check(t.shape() == s, "factory shape"); r = vals(t); } else { Guard g(s); k.f(g.t); r = g.done(c, s); }
    c.step(); double sl = 2e-6 * std::max(std::fabs(k.lo), std::fabs(k.hi));
    for (float v : r) if (!(v >= k.lo - (k.rel ? sl : 0) && v <= k.hi + (k.rel ? sl : 0))) c.fail(k.name + " gave " + fstr(v) + " outside [" + fstr(k.lo) + ", " + fstr(k.hi) + "]");
    return r;
}
static void ranges(vp::Ctx& c, const Sh& s, int ki) {
    Kind k = kind(s, ki); c.tell(k.name, " ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), ki)); size_t n = prod(s);
    double w = double(k.hi) - k.lo, tol = 1e-5 * w + 2e-6 * std::max(std::fabs(k.lo), std::fabs(k.hi));
    for (int f = 0; f < 2; ++f) {
        Vec a = run(c, k, s, f, [](uint64_t) { return LOW; }), b = run(c, k, s, f, [](uint64_t) { return HIGH; });
        for (size_t i = 0; i < n; ++i) {
            double lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]);
            if (!(lo <= k.lo + tol)) c.fail(k.name + "[" + std::to_string(i) + "]: the lower end " + fstr(k.lo) + " is never reached (smallest " + fstr(lo) + ")"); if (!(hi >= k.hi - tol)) c.fail(k.name + "[" + std::to_string(i) + "]: the upper end " + fstr(k.hi) + " is never reached (largest " + fstr(hi) + ")");
        }
        uint64_t used = count(); if (k.hi > k.lo) c.check(used >= n, "fewer draws than elements");
        run(c, k, s, f, [](uint64_t) { return MID; }); run(c, k, s, f, [](uint64_t i) { return i % 2 ? LOW : HIGH; }); run(c, k, s, f, [](uint64_t i) { return i % 3 ? 12345u : 0xfffffff0u; });
        for (int salt = 0; salt < 3; ++salt) run(c, k, s, f, [&](uint64_t i) { return uint32_t(vp::mix(salt, i) >> 9); });
    }
}
SCENARIO(grid, 3) { Sh s = shape(c, 4, c.thorough() ? 6 : 4); ranges(c, s, c.choose(KINDS)); }
SCENARIO(sizes, 2) { static const std::vector<int> N = {1, 2, 7, 8, 9, 31, 64}; int a = c.pick(N), b = c.pick(N); ranges(c, {a, b}, c.choose(KINDS)); }
SCENARIO(larger, 1) { static const std::vector<Sh> S = {{1, 1000}, {1000, 1}, {10, 784}, {129, 65}, {100}, {64, 64, 3, 3}, {65536}, {256, 256}, {8, 32, 16, 16}, {4096}, {2, 3, 2, 3, 2}, {3, 2, 1, 2, 3, 2}, {2, 2, 2, 2, 2, 2, 2}, {1, 3, 2, 1, 2, 1, 2, 2}, {70001}, {300, 300}, {2, 40000}, {40000, 2}, {1030, 3, 1, 1}, {3, 1030, 1, 1}}; Sh s = c.pick(S); ranges(c, s, c.choose(3)); }
SCENARIO(high_ranks, 2) { int r = c.range(5, 7); Sh s(r); for (auto& d : s) d = c.range(1, 2); ranges(c, s, c.choose(3)); }
SCENARIO(conv_shapes, 2) { static const std::vector<int> N = {1, 3, 8, 16}; Sh s{c.pick(N), c.pick(N), c.range(1, 5), c.range(1, 3)}; ranges(c, s, c.choose(3)); }
// each element answers to draws of its own
SCENARIO(own_draws, 2) {
    static const std::vector<Sh> S = {{1}, {2}, {3}, {2, 2}, {1, 5}, {2, 3, 1}, {1, 2, 1, 3}, {4, 2}}; Sh s = c.pick(S); int ki = c.choose(KINDS), f = c.choose(2); Kind k = kind(s, ki); if (k.hi == k.lo) throw vp::Skip{}; size_t n = prod(s); c.tell(k.name, " ", sstr(s), " all low/high draw patterns");
    run(c, k, s, f, [](uint64_t) { return LOW; }); size_t per = std::max<size_t>(1, (count() + n - 1) / n); std::set<std::vector<bool>> seen; double mid = (double(k.lo) + k.hi) / 2;
    for (unsigned m = 0; m < (1u << n); ++m) { Vec r = run(c, k, s, f, [&](uint64_t i) { return m >> (i / per % n) & 1 ? HIGH : LOW; }); std::vector<bool> b; for (float v : r) b.push_back(v > mid); seen.insert(b); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), ki), m)); }
    c.check(seen.size() == (1u << n), std::to_string(1u << n) + " draw patterns gave only " + std::to_string(seen.size()) + " different tensors");
}
// initializers with different ranges and shapes one after the other, in every order, also on one tensor
SCENARIO(sequences, 2) {
    static const std::vector<Sh> S = {{2, 3}, {3, 2}, {6}}; int D = c.thorough() ? 5 : 4; uint64_t st = 0; bool lowfirst = c.flip();
    for (int d = 0; d < D; ++d) { int ki = c.choose(KINDS + 1); Sh s = S[ki ? d % 3 : d % 2]; if (ki == KINDS) { c.tell("constant"); fixed(c, s, float(d)); } else { Kind k = kind(s, ki); c.tell(k.name, " ", sstr(s)); double w = double(k.hi) - k.lo, tol = 1e-5 * w + 2e-6 * std::max(std::fabs(k.lo), std::fabs(k.hi)); Vec a = run(c, k, s, d % 2, [](uint64_t) { return LOW; }), b = run(c, k, s, d % 2, [](uint64_t) { return HIGH; }); if (lowfirst) b = run(c, k, s, d % 2 == 0, [](uint64_t) { return HIGH; }); for (size_t i = 0; i < a.size(); ++i) if (!(std::min(a[i], b[i]) <= k.lo + tol && std::max(a[i], b[i]) >= k.hi - tol)) c.fail(k.name + "[" + std::to_string(i) + "] ranges over [" + fstr(std::min(a[i], b[i])) + ", " + fstr(std::max(a[i], b[i])) + "]"); } st = vp::mix(st, ki + 1); c.state(vp::mix(st, lowfirst)); }
}
// every element of every tensor comes from a draw that was not used before
static std::vector<fresh::Client> clients() { static dw::Tensor t(Sh{3, 4}); return {{"uniform in place", [] { I::uniform(t); }}, {"uniform(-2,3) in place", [] { I::uniform(t, -2, 3); }}, {"xavierUniform in place", [] { I::xavierUniform(t); }}, {"Tensor::uniform", [] { dw::Tensor::uniform({5}, 0, 2); }}, {"Tensor::xavierUniform", [] { dw::Tensor::xavierUniform({2, 3, 2}); }}, {"new Linear", [] { dw::Linear l(3, "l"); l(dw::Placeholder(Sh{2, 4})); }}, {"new Convolution", [] { dw::Convolution l(2, {2, 2}, {0, 0}, {1, 1}, "l"); l(dw::Placeholder(Sh{2, 2, 4, 4})); }}, {"constant", [] { I::constant(t, 2); }, false}}; }
SCENARIO(fresh_draws, 2) { auto cl = clients(); fresh::sequences(c, cl, c.thorough() ? 5 : 4); }
SCENARIO(fresh_long, 1) { auto cl = clients(); fresh::many(c, cl[c.choose(5)], 1000); }
