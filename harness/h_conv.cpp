// C03: Convolution forward == bias + cross-correlation of the zero-padded input.
#include "ref.hpp"
#include "twins.hpp"

static void run_on(vp::Ctx& c, Lay& l, Keep& keep, const ref::Geo& g, int from, int to, int salt) {
    for (int pat = from; pat < to; ++pat) {
        size_t nx = prod(g.in()), nw = prod(g.wt());
        Vec x, w, b;
        double sx = 1, sw = 1;
        if (pat == 1) sx = std::ldexp(1, 40);
        if (pat == 2) sw = std::ldexp(1, -30);
        x = ints(nx, 11 + pat + salt, 9); w = ints(nw, 77 + pat + salt / 3, 9); b = ints(g.co, 5 + pat + salt / 3, 9);
        for (auto& v : x) v *= sx; for (auto& v : w) v *= sw; for (auto& v : b) v *= sx * sw;
        if (pat == 3) { // one-hot weights with pairwise different inputs: pins the tap geometry
            x = gen(nx, [](size_t i) { return double(i + 1); });
            w.assign(nw, 0); w[(nw * 7 / 11 + salt) % nw] = 1; b.assign(g.co, 0);
        }
        setv(l.param("weight"), w); setv(l.param("bias"), b);
        auto tx = keep("x", g.in(), x), y = keep("y", g.out(), Vec(prod(g.out()), NAN)); std::vector<dw::Tensor> o{y};
        l.impl->forward({tx}, o);
        c.step();
        expect_vec(c, "output (data pattern " + std::to_string(pat) + ")", vals(y), ref::conv(g, x, w, b));
        expect_same(c, "input", vals(tx), x); expect_same(c, "weight", vals(l.param("weight")), w); expect_same(c, "bias", vals(l.param("bias")), b);
    }
}
static void run_geo(vp::Ctx& c, const ref::Geo& g, int patterns) {
    Lay l = Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "conv"), {g.in()}); Keep none;
    c.check(l.out == g.out(), "inferred shape " + sstr(l.out) + " expected " + sstr(g.out()));
    c.state(vp::hash_str(g.str()));
    run_on(c, l, none, g, 0, patterns, 0); c.traces(patterns - 1);
}

SCENARIO(grid, 4) {
    ref::Geo g;
    bool th = c.thorough();
    g.h = c.range(1, th ? 6 : 5); g.w = c.range(1, th ? 6 : 5); g.n = c.range(1, 3); g.ci = c.range(1, th ? 3 : 2);
    g.k = {c.range(1, 3), c.range(1, 3)};
    g.p = {c.range(0, 3), c.range(0, 3)};
    if (!g.fits()) throw vp::Skip{};
    g.s = {c.range(1, 3), c.range(1, 3)};
    g.co = c.range(1, th ? 3 : 2);
    c.tell(g.str());
    run_geo(c, g, th ? 4 : 2);
}
// Sizes around vector widths, GEMM block sizes and plausible thresholds.
SCENARIO(large, 2) {
    static const std::vector<ref::Geo> gs = {
        {1, 3, 32, 32, 8, {3, 3}, {1, 1}, {1, 1}}, {2, 3, 32, 32, 16, {5, 5}, {2, 2}, {1, 1}}, {9, 1, 7, 6, 5, {3, 2}, {1, 0}, {1, 2}},
        {17, 2, 5, 9, 3, {2, 3}, {0, 2}, {2, 1}}, {40, 1, 4, 4, 2, {3, 3}, {1, 1}, {1, 1}}, {1, 33, 6, 5, 17, {3, 3}, {1, 1}, {1, 1}},
        {2, 16, 9, 7, 33, {1, 1}, {0, 0}, {1, 1}}, {1, 1, 28, 28, 6, {5, 5}, {2, 2}, {2, 2}}, {3, 8, 12, 10, 8, {7, 5}, {3, 2}, {3, 2}},
        {2, 2, 11, 13, 3, {11, 13}, {0, 0}, {1, 1}}, {1, 2, 4, 5, 2, {4, 7}, {4, 5}, {5, 4}}, {130, 1, 3, 3, 1, {2, 2}, {1, 1}, {1, 1}},
        {1, 64, 4, 4, 64, {3, 3}, {1, 1}, {1, 1}}, {1, 1, 1, 70, 2, {1, 9}, {0, 4}, {1, 3}}, {1, 1, 70, 1, 2, {9, 1}, {4, 0}, {3, 1}}, {1, 3, 64, 48, 4, {3, 3}, {1, 1}, {2, 2}},
        {256, 1, 2, 2, 1, {1, 1}, {0, 0}, {1, 1}}, {1, 1, 40, 40, 1, {2, 2}, {0, 0}, {1, 1}}, {1, 128, 3, 3, 2, {2, 2}, {0, 0}, {1, 1}}, {1, 2, 3, 3, 130, {2, 2}, {0, 0}, {1, 1}},
        {1, 3, 10, 10, 2, {4, 4}, {0, 0}, {4, 4}}, {2, 1, 8, 8, 2, {5, 5}, {1, 1}, {6, 6}}, {1, 1, 9, 9, 1, {6, 6}, {5, 5}, {1, 1}}, {1, 4, 8, 8, 4, {8, 8}, {0, 0}, {1, 1}},
        {300, 2, 3, 3, 2, {2, 2}, {0, 1}, {1, 1}}, {1030, 1, 2, 1, 1, {1, 1}, {0, 0}, {1, 1}}, {1, 300, 3, 3, 2, {2, 2}, {0, 0}, {1, 1}}, {2, 1030, 1, 2, 2, {1, 1}, {0, 0}, {1, 1}}, {1, 2, 3, 2, 300, {2, 2}, {0, 0}, {1, 1}},
        {2, 2, 1, 2, 1030, {1, 1}, {0, 0}, {1, 1}}, {2, 1, 100, 90, 2, {3, 3}, {1, 1}, {1, 1}}, {1, 1, 260, 255, 1, {2, 2}, {0, 1}, {1, 1}}, {1, 1, 30, 33, 2, {30, 30}, {0, 0}, {1, 1}}, {1, 160, 4, 4, 3, {3, 3}, {0, 1}, {1, 1}},
        {1, 1, 2, 2100, 1, {2, 3}, {0, 1}, {1, 2}}, {1, 1, 2, 1100, 2, {1, 1030}, {0, 8}, {1, 7}}, {1, 2, 9, 9, 2, {3, 3}, {20, 17}, {1, 1}}, {1, 1, 40, 40, 1, {2, 2}, {0, 0}, {37, 20}}};
    auto g = c.pick(gs); int swap = c.choose(2);
    if (swap) { std::swap(g.h, g.w); std::swap(g.k[0], g.k[1]); std::swap(g.p[0], g.p[1]); std::swap(g.s[0], g.s[1]); }
    c.tell(g.str());
    run_geo(c, g, 4);
}
// one layer over inputs of changing batch and plane sizes, all sequences; and many hundred passes
static const std::vector<std::vector<ref::Geo>>& series() {
    static std::vector<std::vector<ref::Geo>> v; if (!v.empty()) return v;
    auto add = [&](int ci, int co, A2 k, A2 p, A2 s, std::vector<std::array<int, 3>> nhw) { std::vector<ref::Geo> r; for (auto& q : nhw) r.push_back({q[0], ci, q[1], q[2], co, k, p, s}); v.push_back(r); };
    add(2, 3, {2, 3}, {1, 0}, {1, 2}, {{2, 3, 5}, {1, 3, 5}, {3, 3, 5}, {2, 5, 3}, {1, 7, 5}, {5, 1, 3}}); add(1, 1, {3, 3}, {1, 1}, {1, 1}, {{1, 4, 6}, {1, 6, 4}, {2, 3, 4}, {3, 2, 4}, {1, 2, 2}, {9, 1, 1}});
    add(1, 3, {1, 1}, {0, 0}, {1, 1}, {{1, 2, 3}, {1, 3, 2}, {6, 1, 1}, {2, 3, 1}, {2, 4, 4}, {1, 1, 1}}); add(3, 2, {3, 2}, {0, 1}, {2, 1}, {{2, 5, 4}, {1, 5, 4}, {2, 4, 5}, {4, 3, 1}, {1, 9, 2}, {3, 3, 3}});
    return v;
}
SCENARIO(calls, 3) {
    auto& v = c.pick(series()); Lay l = Lay::make(dw::Convolution(v[0].co, v[0].k, v[0].p, v[0].s, "conv"), {v[0].in()}); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = vp::hash_str(v[0].str()) + k.on; if (k.on) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(v[i].str()); run_on(c, l, k, v[i], d % 2 * 3, d % 2 * 3 + 1, d * 3); st = vp::mix(st, i); c.state(st); }
}
SCENARIO(long_run, 3) {
    auto& v = c.pick(series()); int sc = c.choose(SCHEDULES); Lay l = Lay::make(dw::Convolution(v[0].co, v[0].k, v[0].p, v[0].s, "conv"), {v[0].in()}); Keep k; k.on = c.flip(); int N = c.thorough() ? 20000 : 2100; c.tell(v[0].str(), " and other planes, ", N, " passes, schedule ", sc);
    for (int d = 0; d < N; ++d) { run_on(c, l, k, v[scheduled(sc, d, (int)v.size())], d % 4, d % 4 + 1, d); c.states_n(1); }
}
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Convolution"}, twins::OUT); }
// several layers that differ in one attribute, used in every order
SCENARIO(neighbours, 2) {
    auto v = ref::neighbours(c.flip() ? ref::Geo{2, 2, 5, 6, 2, {2, 2}, {1, 1}, {1, 1}} : ref::Geo{2, 1, 4, 5, 1, {1, 2}, {0, 0}, {2, 2}}, true); int D = c.thorough() ? 4 : 3; uint64_t st = vp::hash_str(v[0].str()); std::vector<Lay> l; for (auto& g : v) l.push_back(Lay::make(dw::Convolution(g.co, g.k, g.p, g.s, "conv"), {g.in()})); Keep none;
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(v[i].str()); run_on(c, l[i], none, v[i], 0, 1, d * 3); st = vp::mix(st, i); c.state(st); }
}
