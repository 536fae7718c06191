// C05 (ASAN part): every length, position, neighbour and shape.
#include "act.hpp"
#include "twins.hpp"
SCENARIO(positions, 2) {
    Act a = c.pick(acts()); int n = c.range(1, c.thorough() ? 70 : 35);
    Vec sp = act_specials(); sp.push_back(INFINITY); sp.push_back(-INFINITY);
    int bg = c.choose(5);
    c.tell(aname(a), " length ", n, " background ", bg);
    for (int pos = 0; pos < n; ++pos) for (float v : sp) {
        Vec x(n); for (int i = 0; i < n; ++i) x[i] = bg == 0 ? -1.5f : bg == 1 ? 2.25f : bg == 2 ? (i % 2 ? 0.75f : -0.25f) : bg == 3 ? -3e38f : sp[(i * 7 + pos) % sp.size()];
        x[pos] = v;
        act_fwd_check(c, a, {n}, x); c.states_n(1); c.traces(1);
    }
}
SCENARIO(slopes, 2) {
    Act a = c.pick(acts_more()); int n = c.range(1, 35); auto& sp = act_specials(); int k = c.choose((int)sp.size());
    c.tell(aname(a), " length ", n, " offset ", k); c.states_n(1);
    Vec x = gen(n, [&](size_t i) { return sp[(i * 5 + k) % sp.size()]; });
    act_fwd_check(c, a, {n}, x);
}
SCENARIO(shapes, 2) {
    Act a = c.pick(acts_more()); int n = c.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 30, 31, 33, 60, 64, 65, 100, 127, 129, 1000, 4096, 4099, 70000, 131075, 1048583});
    auto ss = act_shapes(n); Sh s = ss[c.choose((int)ss.size())];
    if (ss.size() > 40 && s.size() > 2) throw vp::Skip{};
    c.tell(aname(a), " shape ", sstr(s)); c.states_n(1);
    auto& sp = act_specials();
    act_fwd_check(c, a, s, gen(n, [&](size_t i) { return sp[(i * 5 + i / 22) % sp.size()]; }));
}
// one layer over tensors of changing shapes, all sequences; and many thousand passes
static void one(vp::Ctx& c, Lay& l, Keep& k, const Act& a, const Sh& s, int d) { auto& sp = act_specials(); Vec X = gen(prod(s), [&](size_t i) { return sp[(i * 5 + d) % sp.size()]; }); act_fwd_on(c, l, k, a, s, X); }
SCENARIO(calls, 3) {
    Act a = c.pick(acts()); auto& v = act_series(); Lay l = act_layer(a, v[0]); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = vp::hash_str(aname(a)) + k.on; c.tell(aname(a), k.on ? " tensors overwritten in place" : "");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(sstr(v[i])); one(c, l, k, a, v[i], d * 7 + i); st = vp::mix(st, i); c.state(st); }
}
SCENARIO(long_run, 3) { Act a = c.pick(acts()); auto& v = act_series(); int sc = c.choose(SCHEDULES); Lay l = act_layer(a, v[0]); Keep k; k.on = c.flip(); int N = c.thorough() ? 70000 : 5000; c.tell(aname(a), " ", N, " passes, schedule ", sc); for (int d = 0; d < N; ++d) { one(c, l, k, a, v[scheduled(sc, d, (int)v.size())], d); c.states_n(1); } }
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Activation"}, twins::OUT); }
// layers of every type and slope, used in every order
SCENARIO(neighbours, 2) { auto& v = acts(); int D = c.thorough() ? 4 : 3; std::vector<Lay> l; for (auto& a : v) l.push_back(act_layer(a, {2, 3})); Keep none; uint64_t st = 99; for (int d = 0; d < D; ++d) { int i = c.choose((int)v.size()); c.tell(aname(v[i])); one(c, l[i], none, v[i], {2, 3}, d * 3); st = vp::mix(st, i); c.state(st); } }
