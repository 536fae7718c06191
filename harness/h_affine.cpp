// C09: Linear, Add, GlobalAvgPooling forward.
#include "ref.hpp"
#include "twins.hpp"
static void lin_on(vp::Ctx& c, Lay& l, Keep& keep, const Sh& s, int u, int salt) {
    int n = s[0], f = int(prod(s)) / n;
    Vec W = ints(size_t(u) * f, salt + 1, 7), b = ints(u, salt + 2, 50), x = ints(prod(s), salt + 3, 9);
    setv(l.param("weight"), W); setv(l.param("bias"), b);
    auto tx = keep("x", s, x), ty = keep("y", {n, u}, Vec(size_t(n) * u, NAN)); std::vector<dw::Tensor> o{ty}; l.impl->forward({tx}, o); Vec y = vals(ty); c.step();
    expect_vec(c, "output", y, ref::linear(n, f, u, x, W, b));
    expect_same(c, "input", vals(tx), x); expect_same(c, "weight", vals(l.param("weight")), W); expect_same(c, "bias", vals(l.param("bias")), b);
}
static void lin(vp::Ctx& c, const Sh& s, int u, int salt) { Lay l = Lay::make(dw::Linear(u, "l"), {s}); Keep none; lin_on(c, l, none, s, u, salt); }
SCENARIO(linear_grid, 3) {
    int n = c.range(1, 6), u = c.range(1, 9); int r = c.range(2, 4);
    Sh s(r); s[0] = n; for (int i = 1; i < r; ++i) s[i] = c.range(1, r == 2 ? 20 : 4);
    c.tell("Linear in=", sstr(s), " units=", u); c.state(vp::mix(vp::hash_str(sstr(s)), u));
    for (int k = 0; k < 2; ++k) lin(c, s, u, k * 10);
}
SCENARIO(linear_large, 3) {
    static const std::vector<int> N = {1, 2, 3, 4, 7, 8, 16, 17, 33, 64, 65, 129, 256}, F = {1, 3, 4, 8, 9, 16, 17, 31, 64, 65, 128, 200, 784}, U = {1, 4, 8, 10, 12, 16, 17, 48, 100, 256, 300};
    int n = c.pick(N), f = c.pick(F), u = c.pick(U);
    if (!c.thorough() && size_t(n) * f * u > 2000000) throw vp::Skip{};
    Sh s = f % 8 == 0 && f > 8 ? Sh{n, f / 8, 4, 2} : f % 4 == 0 ? Sh{n, 2, f / 2} : Sh{n, f};
    c.tell("Linear in=", sstr(s), " units=", u); c.state(vp::mix(vp::hash_str(sstr(s)), u));
    lin(c, s, u, 5);
}
SCENARIO(linear_ranks, 3) {
    int r = c.range(1, 3) + 4, u = c.range(1, 4);
    Sh s(r); s[0] = c.range(1, 3); for (int i = 1; i < r; ++i) s[i] = c.range(1, r == 5 ? 3 : 2);
    c.tell("Linear in=", sstr(s), " units=", u); c.state(vp::mix(vp::hash_str(sstr(s)), u));
    lin(c, s, u, 3);
}
SCENARIO(linear_huge, 1) {
    static const std::vector<std::array<int, 3>> S = {{300, 3, 2}, {520, 2, 3}, {1030, 5, 4}, {70000, 1, 2}, {2, 1030, 3}, {3, 2050, 2}, {1, 70000, 2}, {1, 4100, 17}, {2, 3, 1030}, {1, 5, 4100}, {2, 2, 70000}, {130, 1030, 5}, {5, 520, 520}, {260, 260, 9}, {1, 1030, 1030}};
    auto q = c.pick(S); Sh s = q[1] % 2 == 0 ? Sh{q[0], 2, q[1] / 2} : Sh{q[0], q[1]}; c.tell("Linear in=", sstr(s), " units=", q[2]); c.state(vp::mix(vp::hash_str(sstr(s)), q[2])); lin(c, s, q[2], 9);
}
// unit inputs: every weight element is used exactly once and at the right place
SCENARIO(linear_units, 2) {
    int n = c.range(1, 3), u = c.range(1, 5); Sh s{n, c.range(1, 3), c.range(1, 3)}; int f = s[1] * s[2];
    Lay l = Lay::make(dw::Linear(u, "l"), {s}); Vec W = gen(size_t(u) * f, [](size_t i) { return i + 1; }), b(u, 0.f); setv(l.param("weight"), W); setv(l.param("bias"), b);
    c.tell("Linear unit inputs in=", sstr(s), " units=", u);
    for (int q = 0; q < n * f; ++q) { Vec x(n * f, 0.f); x[q] = 1; c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), u), q + 1000)); auto tx = mk(s, x); expect_vec(c, "output", vals(l.forward({tx})), ref::linear(n, f, u, x, W, b)); c.step(); }
}
// every zero pattern of the bias with special weights and inputs; previous contents of the output are NaN
SCENARIO(linear_patterns, 3) {
    int n = c.range(1, 3), f = c.range(1, 5), u = c.range(1, 5), zb = c.choose(1 << u), wp = c.choose(8), xp = c.choose(5); Sh s{n, f};
    c.tell("Linear in=", sstr(s), " units=", u, " zero bias set ", zb, " weight pattern ", wp, " input pattern ", xp); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), u), zb * 64 + wp * 8 + xp));
    double sc = wp == 6 ? std::ldexp(1, 30) : wp == 7 ? std::ldexp(1, -30) : 1, sx = xp == 4 ? std::ldexp(1, 20) : 1;
    Vec W = gen(size_t(u) * f, [&](size_t i) { int r = int(i) / f, k = int(i) % f; double v = scat(i, 41, 7); return wp == 1 ? 0.0 : wp == 2 ? (r == k ? 1.0 : 0.0) : wp == 3 ? (r == 0 ? 0.0 : v) : wp == 4 ? (k == 0 ? 0.0 : v) : wp == 5 ? -3.0 : v * sc; });
    Vec x = gen(prod(s), [&](size_t i) { double v = scat(i, 43, 9); return xp == 1 ? 0.0 : xp == 2 ? 5.0 : xp == 3 ? (i % f == 0 || i + 1 == prod(s) ? 0.0 : v) : v * sx; });
    Vec b = gen(u, [&](size_t i) { return (zb >> i) & 1 ? 0.0 : (7.0 + i) * sc * sx; });
    Lay l = Lay::make(dw::Linear(u, "l"), {s}); setv(l.param("weight"), W); setv(l.param("bias"), b); auto tx = mk(s, x); expect_vec(c, "output", vals(l.forward({tx})), ref::linear(n, f, u, x, W, b)); c.step();
    expect_same(c, "input", vals(tx), x); expect_same(c, "weight", vals(l.param("weight")), W); expect_same(c, "bias", vals(l.param("bias")), b);
    // the same layer after its parameters were changed in place
    for (auto& v : b) v += 3 * sc * sx; for (auto& v : W) v += sc; setv(l.param("weight"), W); setv(l.param("bias"), b); expect_vec(c, "output after changing the parameters", vals(l.forward({tx})), ref::linear(n, f, u, x, W, b)); c.step();
}
SCENARIO(add_values, 1) { // every pair of special values, in every lane
    static const Vec V = {0.f, -0.f, 1.f, -1.f, 3e38f, -3e38f, 1e-38f, 1e-45f, -1e-45f, 16777216.f, 0.1f, INFINITY, -INFINITY, 1e20f, -1e20f};
    int n = c.range(1, 20), k = c.choose((int)(V.size() * V.size())); Vec a(n, 0.5f), b(n, 0.25f); c.tell("Add values ", V[k / V.size()], " and ", V[k % V.size()], " length ", n); c.state(vp::mix(vp::mix(99, n), k));
    for (int pos = 0; pos < n; pos += std::max(1, n / 4)) { Vec p = a, q = b; p[pos] = V[k / V.size()]; q[pos] = V[k % V.size()]; Lay l = Lay::make(dw::Add("a"), {{n}, {n}}); auto ta = mk({n}, p), tb = mk({n}, q); Vec y = vals(l.forward({ta, tb})); c.step(); Vec e = gen(n, [&](size_t i) { return p[i] + q[i]; }); expect_vec(c, "output", y, e); expect_same(c, "first input", vals(ta), p); expect_same(c, "second input", vals(tb), q); }
}
static void add_on(vp::Ctx& c, Lay& l, Keep& keep, const Sh& s, bool same, int salt) {
    Vec a = ints(prod(s), 1 + salt, 1000), b = same ? a : ints(prod(s), 2 + salt, 1000);
    auto ta = keep("a", s, a), tb = same ? ta : keep("b", s, b), ty = keep("y", s, Vec(prod(s), NAN)); std::vector<dw::Tensor> o{ty};
    l.impl->forward({ta, tb}, o); Vec y = vals(ty); c.step();
    expect_vec(c, "output", y, gen(a.size(), [&](size_t i) { return double(a[i]) + b[i]; }));
    expect_same(c, "first input", vals(ta), a); expect_same(c, "second input", vals(tb), b);
}
static void add(vp::Ctx& c, const Sh& s, bool same) { Lay l = Lay::make(dw::Add("a"), {s, s}); Keep none; add_on(c, l, none, s, same, 0); }
SCENARIO(add_grid, 2) {
    int r = c.range(1, 5); Sh s(r); for (auto& d : s) d = c.pick(r <= 3 ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 16, 17} : std::vector<int>{1, 2, 3}); bool same = c.flip();
    c.tell("Add ", sstr(s), same ? " same tensor" : ""); c.state(vp::mix(vp::hash_str(sstr(s)), same + 50));
    add(c, s, same);
}
SCENARIO(add_lengths, 1) { int n = c.choose(160); Sh s{n < 150 ? n + 1 : n == 159 ? 1100003 : (n - 149) * 14999}; c.tell("Add ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 50)); add(c, s, false); add(c, s, true); }
static void gap_on(vp::Ctx& c, Lay& l, Keep& keep, const Sh& s, int salt) {
    int pl = s[2] * s[3];
    Vec x = gen(prod(s), [&](size_t i) { return scat(i, 4 + salt, 100) + double(int(i / pl) * 3); });
    auto tx = keep("x", s, x), ty = keep("y", {s[0], s[1], 1, 1}, Vec(size_t(s[0]) * s[1], NAN)); std::vector<dw::Tensor> o{ty}; l.impl->forward({tx}, o); Vec y = vals(ty); c.step();
    D e(size_t(s[0]) * s[1]); for (size_t i = 0; i < x.size(); ++i) e[i / pl] += x[i]; for (auto& v : e) v /= pl;
    for (size_t i = 0; i < e.size(); ++i) if (!(std::fabs(y[i] - e[i]) <= 1e-6 * (std::fabs(e[i]) + 100))) c.fail("mean of plane " + std::to_string(i) + " = " + fstr(y[i]) + ", expected " + fstr(e[i]));
    expect_same(c, "input", vals(tx), x);
}
static void gap(vp::Ctx& c, const Sh& s) { Lay l = Lay::make(dw::GlobalAvgPooling("g"), {s}); Keep none; gap_on(c, l, none, s, 0); }
SCENARIO(gap_grid, 2) {
    Sh s{c.range(1, 4), c.range(1, 6), c.range(1, 8), c.range(1, 8)};
    c.tell("GlobalAvgPooling ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 77)); gap(c, s);
}
SCENARIO(gap_large, 1) {
    static const std::vector<Sh> S = {{1, 1, 32, 32}, {8, 64, 7, 7}, {1, 512, 1, 1}, {3, 17, 5, 33}, {64, 2, 9, 4}, {1, 3, 1, 1000}, {2, 3, 224, 1}, {33, 9, 3, 3}, {1, 2, 80, 80}, {2, 1, 300, 300}, {2, 2, 1, 70000}, {1, 3, 65, 64}, {1, 1, 1024, 1024}, {300, 2, 2, 1}, {1030, 3, 1, 2}, {2, 1030, 2, 1}, {1, 5000, 1, 1}, {260, 260, 1, 1}};
    Sh s = c.pick(S); c.tell("GlobalAvgPooling ", sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 77)); gap(c, s);
}
// one layer over inputs of changing shapes, all sequences; and many hundred passes
struct Series { Lay l; std::vector<Sh> v; int kind; };
static Series series(int kind) {
    if (kind == 0) return {Lay::make(dw::Linear(3, "l"), {{2, 4}}), {{2, 4}, {5, 4}, {1, 4}, {3, 2, 2}, {2, 1, 4, 1}, {9, 4}}, 0};
    if (kind == 1) return {Lay::make(dw::Linear(5, "l"), {{3, 9}}), {{3, 9}, {1, 3, 3}, {8, 9}, {2, 9, 1}, {1, 9}}, 0};
    if (kind == 2) return {Lay::make(dw::Add("a"), {{2, 3}, {2, 3}}), {{2, 3}, {3, 2}, {7}, {1, 2, 2, 2}, {4, 5}, {1}}, 1};
    return {Lay::make(dw::GlobalAvgPooling("g"), {{2, 2, 2, 3}}), {{2, 2, 2, 3}, {1, 3, 4, 1}, {3, 1, 2, 2}, {1, 2, 1, 1}, {2, 2, 3, 2}, {4, 1, 2, 3}}, 2};
}
static void one(vp::Ctx& c, Series& q, Keep& k, const Sh& s, int d) { if (q.kind == 0) lin_on(c, q.l, k, s, q.l.out[1], d); else if (q.kind == 1) add_on(c, q.l, k, s, d % 3 == 2, d); else gap_on(c, q.l, k, s, d); }
static const char* KIND[] = {"Linear(3)", "Linear(5)", "Add", "GlobalAvgPooling"};
SCENARIO(calls, 3) {
    int kind = c.choose(4); Series q = series(kind); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = kind * 2 + k.on + 7777; c.tell(KIND[kind], k.on ? " tensors overwritten in place" : "");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)q.v.size()); c.tell(sstr(q.v[i])); one(c, q, k, q.v[i], d * 7 + i); st = vp::mix(st, i); c.state(st); }
}
SCENARIO(long_run, 3) { int kind = c.choose(4); Series q = series(kind); int sc = c.choose(SCHEDULES); Keep k; k.on = c.flip(); int N = c.thorough() ? 70000 : 5000; c.tell(KIND[kind], " ", N, " passes, schedule ", sc); for (int d = 0; d < N; ++d) { one(c, q, k, q.v[scheduled(sc, d, (int)q.v.size())], d); c.states_n(1); } }
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Linear","Add","GlobalAvgPooling"}, twins::OUT); }
