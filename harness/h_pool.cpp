// C04: MaxPooling forward == maximum of the in-image part of the window; backward
// routes every output gradient to one maximal element of its window.
#include "ref.hpp"
#include "twins.hpp"

static void run_on(vp::Ctx& c, Lay& l, Keep& keep, ref::Geo g, const Vec& x, bool unit, bool only_forward = false) {
    g.co = g.ci;
    Sh os{g.n, g.ci, g.oh(), g.ow()};
    auto tx = keep("x", g.in(), x), y = keep("y", os, Vec(prod(os), NAN)); std::vector<dw::Tensor> outs{y};
    l.impl->forward({tx}, outs);
    c.step();
    Vec yv = vals(y);
    int OH = os[2], OW = os[3];
    auto window = [&](size_t o, auto f) {
        int ox = o % OW, oy = (o / OW) % OH, pl = int(o / (OW * OH));
        for (int i = 0; i < g.k[0]; ++i) for (int j = 0; j < g.k[1]; ++j) {
            int r = oy * g.s[0] - g.p[0] + i, q = ox * g.s[1] - g.p[1] + j;
            if (r >= 0 && r < g.h && q >= 0 && q < g.w) f(size_t(pl) * g.h * g.w + r * g.w + q);
        }
    };
    D ry(yv.size(), -INFINITY);
    for (size_t o = 0; o < ry.size(); ++o) window(o, [&](size_t i) { ry[o] = std::max(ry[o], double(x[i])); });
    expect_vec(c, "output", yv, ry);
    expect_same(c, "input", vals(tx), x);
    if (only_forward) return;
    // backward
    size_t no = yv.size(), nx = x.size();
    Vec gi0 = ints(nx, 3, 5);
    std::vector<long> where(no, -1);
    size_t units = unit ? no : std::min<size_t>(no, 2);
    auto run_bwd = [&](const Vec& go) {
        auto tgo = keep("go", os, go); auto tgi = keep("gi", g.in(), gi0);
        l.backward({tx}, y, tgo, {tgi});
        c.step();
        expect_same(c, "grad_output", vals(tgo), go); expect_same(c, "input", vals(tx), x); expect_same(c, "output", vals(y), yv);
        return vals(tgi);
    };
    for (size_t u = 0; u < units; ++u) {
        size_t o = unit ? u : (u == 0 ? 0 : no - 1);
        Vec go(no, 0.f); go[o] = 16;
        Vec gi = run_bwd(go);
        int hits = 0;
        for (size_t i = 0; i < nx; ++i) {
            double d = double(gi[i]) - gi0[i];
            if (d == 0) continue;
            if (!(d == 16)) c.fail("gradient of output " + std::to_string(o) + " adds " + fstr(d) + " instead of 16 to input " + std::to_string(i));
            ++hits; where[o] = long(i);
        }
        if (!(hits == 1)) c.fail("gradient of output " + std::to_string(o) + " reaches " + std::to_string(hits) + " inputs");
        bool in = false; window(o, [&](size_t i) { in = in || long(i) == where[o]; });
        if (!(in)) c.fail("gradient of output " + std::to_string(o) + " goes to input " + std::to_string(where[o]) + " outside its window");
        if (!(x[where[o]] == yv[o])) c.fail("gradient of output " + std::to_string(o) + " goes to a non-maximal input");
    }
    Vec go = ints(no, 21, 7);
    Vec gi = run_bwd(go);
    if (unit) {
        D r = dvec(gi0);
        for (size_t o = 0; o < no; ++o) r[where[o]] += go[o];
        expect_vec(c, "grad_input", gi, r);
    } else { // values in a window are distinct here, so the maximum is unique
        D r = dvec(gi0);
        for (size_t o = 0; o < no; ++o) window(o, [&](size_t i) { if (x[i] == yv[o]) r[i] += go[o]; });
        expect_vec(c, "grad_input", gi, r);
    }
}
static void run_pool(vp::Ctx& c, ref::Geo g, const Vec& x, bool unit) {
    g.co = g.ci; Lay l = Lay::make(dw::MaxPooling(g.k, g.p, g.s, "pool"), {g.in()}); Keep none; Sh os{g.n, g.ci, g.oh(), g.ow()};
    c.check(l.out == os, "inferred shape " + sstr(l.out) + " expected " + sstr(os));
    run_on(c, l, none, g, x, unit);
}
static ref::Geo geo(vp::Ctx& c, int h, int w, int kmax, int smax) {
    ref::Geo g; g.n = 1; g.ci = 1; g.h = h; g.w = w;
    g.k = {c.range(1, kmax), c.range(1, kmax)};
    g.p = {c.range(0, g.k[0] - 1), c.range(0, g.k[1] - 1)};
    if (!g.fits()) throw vp::Skip{};
    g.s = {c.range(1, smax), c.range(1, smax)}; g.co = 1;
    return g;
}
// every assignment of a signed value set to every small plane
SCENARIO(all_values, 4) {
    static const std::vector<A2> dims = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
    auto hw = c.pick(dims);
    auto g = geo(c, hw[0], hw[1], 3, 3);
    int n = g.h * g.w;
    std::vector<float> set = n <= 4 ? std::vector<float>{-3, -1, 0, 2} : std::vector<float>{-2, -1, 3};
    if (c.thorough() && n <= 4) set = {-1e30f, -3, -1e-30f, 0, 2, 1e30f};
    Vec x(n); for (auto& v : x) v = c.pick(set);
    c.tell(g.str(), " x=", sstr(Sh(x.begin(), x.end())));
    c.state(vp::mix(vp::hash_str(g.str()), hv(x)));
    run_pool(c, g, x, true);
}
// values at the ends of the float range: the padding never wins
SCENARIO(extremes, 4) {
    static const std::vector<A2> dims = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}};
    auto hw = c.pick(dims);
    auto g = geo(c, hw[0], hw[1], 3, 2);
    static const std::vector<float> set = {-3.4028234e38f, -1e30f, -1e-44f, 3.4028234e38f};
    Vec x(g.h * g.w); for (auto& v : x) v = c.pick(set);
    c.tell(g.str(), " x[0]=", fstr(x[0]));
    c.state(vp::mix(vp::hash_str(g.str()), hv(x)));
    run_pool(c, g, x, true);
}
// every geometry, batch and channel count, distinct values in several orders and signs
SCENARIO(grid, 4) {
    int h = c.range(1, c.thorough() ? 7 : 5), w = c.range(1, c.thorough() ? 7 : 5);
    auto g = geo(c, h, w, c.thorough() ? 4 : 3, 3);
    g.n = c.range(1, 2); g.ci = c.range(1, 3); g.co = g.ci;
    c.tell(g.str());
    c.state(vp::hash_str(g.str()));
    size_t n = prod(g.in());
    for (int pat = 0; pat < 4; ++pat) {
        Vec x(n);
        for (size_t i = 0; i < n; ++i) {
            int d = pat == 0 ? int(i) : pat == 1 ? -int(i) - 1 : pat == 2 ? int((i * 7919 + 13) % 10007) - 5000 : -int((i * 7919 + 13) % 10007) - 1;
            x[i] = d * 0.25f;
        }
        run_pool(c, g, x, n <= 60 && pat >= 2);
    }
    c.traces(3);
}
SCENARIO(large, 2) {
    static const std::vector<ref::Geo> gs = {
        {2, 3, 32, 32, 3, {2, 2}, {0, 0}, {2, 2}}, {1, 16, 14, 14, 16, {3, 3}, {1, 1}, {2, 2}}, {20, 2, 9, 5, 2, {2, 3}, {1, 1}, {1, 2}}, {1, 40, 4, 6, 40, {4, 2}, {2, 0}, {1, 1}},
        {1, 1, 40, 37, 1, {5, 7}, {2, 3}, {4, 3}}, {1, 2, 12, 16, 2, {12, 16}, {0, 0}, {1, 1}}, {3, 5, 17, 19, 5, {6, 3}, {5, 2}, {7, 1}}, {1, 1, 3, 90, 1, {2, 33}, {1, 16}, {1, 8}}, {70, 1, 4, 4, 1, {2, 2}, {0, 0}, {2, 2}},
        {300, 2, 3, 4, 2, {2, 2}, {0, 1}, {1, 1}}, {2, 300, 4, 3, 300, {2, 2}, {1, 0}, {2, 1}}, {1030, 1, 2, 2, 1, {2, 1}, {0, 0}, {1, 1}}, {1, 1030, 2, 2, 1030, {1, 2}, {0, 0}, {1, 1}}, {1, 1, 100, 90, 1, {3, 2}, {1, 1}, {1, 1}},
        {1, 1, 260, 255, 1, {2, 2}, {0, 0}, {1, 1}}, {1, 2, 24, 22, 2, {20, 20}, {0, 0}, {1, 1}}, {1, 1, 2, 2100, 1, {1, 2}, {0, 1}, {1, 2}}, {1, 1, 2, 1100, 1, {1, 1030}, {0, 9}, {1, 7}}, {1, 1, 40, 40, 1, {2, 2}, {0, 0}, {37, 20}}};
    auto g = c.pick(gs); int pat = c.choose(4);
    c.tell(g.str());
    c.state(vp::mix(vp::hash_str(g.str()), pat));
    size_t n = prod(g.in());
    Vec x(n);
    for (size_t i = 0; i < n; ++i) {
        long d = pat == 0 ? long(i) : pat == 1 ? -long(i) - 1 : pat == 2 ? long((i * 104729 + 13) % 1000003) - 500000 : -long((i * 104729 + 13) % 1000003) - 1;
        x[i] = d;
    }
    run_pool(c, g, x, false);
}
// one layer over inputs of changing batch, channel and plane sizes, all sequences of forward and forward+backward; and many hundred passes
static const std::vector<std::vector<ref::Geo>>& series() {
    static std::vector<std::vector<ref::Geo>> v; if (!v.empty()) return v;
    auto add = [&](A2 k, A2 p, A2 s, std::vector<Sh> in) { std::vector<ref::Geo> r; for (auto& q : in) r.push_back({q[0], q[1], q[2], q[3], q[1], k, p, s}); v.push_back(r); };
    add({2, 2}, {0, 0}, {2, 2}, {{1, 2, 4, 6}, {1, 2, 6, 4}, {2, 2, 4, 6}, {2, 1, 5, 7}, {1, 1, 2, 2}}); add({3, 2}, {1, 1}, {1, 2}, {{1, 1, 4, 5}, {1, 2, 2, 5}, {2, 1, 2, 5}, {1, 1, 5, 4}, {1, 3, 1, 1}}); add({2, 3}, {0, 1}, {1, 1}, {{2, 2, 3, 3}, {1, 1, 3, 3}, {4, 1, 3, 3}, {1, 4, 2, 4}, {1, 1, 5, 2}});
    return v;
}
static Vec distinct(const ref::Geo& g, int salt) { size_t n = prod(g.in()); return gen(n, [&](size_t i) { double d = double((i * 7919 + 13 + salt * 389) % 10007); return salt % 3 == 0 ? d : salt % 3 == 1 ? -d - 1 : d - 5000; }); }
SCENARIO(calls, 3) {
    auto& v = c.pick(series()); Lay l = Lay::make(dw::MaxPooling(v[0].k, v[0].p, v[0].s, "pool"), {v[0].in()}); Keep k; k.on = c.flip(); int D = c.thorough() ? 4 : 3; uint64_t st = vp::hash_str(v[0].str()) + k.on; if (k.on) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()), f = d + 1 < D ? c.choose(2) : 0; c.tell(v[i].str(), f ? " forward only" : ""); run_on(c, l, k, v[i], distinct(v[i], d + i), true, f); st = vp::mix(vp::mix(st, i), f); c.state(st); }
}
SCENARIO(long_run, 3) {
    auto& v = c.pick(series()); int sc = c.choose(SCHEDULES); Lay l = Lay::make(dw::MaxPooling(v[0].k, v[0].p, v[0].s, "pool"), {v[0].in()}); Keep k; k.on = c.flip(); int N = c.thorough() ? 20000 : 2100; c.tell(v[0].str(), " and other planes, ", N, " passes, schedule ", sc);
    for (int d = 0; d < N; ++d) { auto& g = v[scheduled(sc, d, (int)v.size())]; run_on(c, l, k, g, distinct(g, d), false); c.states_n(1); }
}
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"MaxPooling"}, twins::OUT | twins::GIN); }
// several layers that differ in one attribute, used in every order
SCENARIO(neighbours, 2) {
    auto v = ref::neighbours(c.flip() ? ref::Geo{2, 2, 5, 6, 2, {2, 2}, {1, 1}, {1, 1}} : ref::Geo{2, 1, 4, 5, 1, {1, 2}, {0, 0}, {2, 2}}, false); v.erase(std::remove_if(v.begin(), v.end(), [](const ref::Geo& g) { return g.p[0] >= g.k[0] || g.p[1] >= g.k[1]; }), v.end()); int D = c.thorough() ? 4 : 3; uint64_t st = vp::hash_str(v[0].str()); std::vector<Lay> l; for (auto& g : v) l.push_back(Lay::make(dw::MaxPooling(g.k, g.p, g.s, "pool"), {g.in()})); Keep none;
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(v[i].str()); run_on(c, l[i], none, v[i], distinct(v[i], d + i), false); st = vp::mix(st, i); c.state(st); }
}
