// C07: Softmax forward and backward.
#include "ref.hpp"
#include "twins.hpp"
static void run_on(vp::Ctx& c, Lay& l, Keep& keep, int n, int k, const Vec& x, bool units, int salt = 0, bool only_forward = false) {
    auto tx = keep("x", {n, k}, x), ty = keep("y", {n, k}, Vec(size_t(n) * k, NAN)); std::vector<dw::Tensor> outs{ty}; l.impl->forward({tx}, outs); Vec y = vals(ty);
    c.step();
    expect_same(c, "input", vals(tx), x);
    D r = ref::softmax(n, k, x);
    for (int i = 0; i < n; ++i) {
        double m = -INFINITY, s = 0; for (int j = 0; j < k; ++j) m = std::max(m, double(x[i * k + j]));
        for (int j = 0; j < k; ++j) {
            int q = i * k + j; double d = m - x[q];
            if (!(y[q] >= 0.f && y[q] <= 1.f)) c.fail("output row " + std::to_string(i) + " column " + std::to_string(j) + " = " + fstr(y[q]) + " is outside [0,1]");
            double tol = r[q] * (2e-6 + 6e-8 * k + 2e-7 * std::min(d, 200.0)) + 1e-37;
            if (!(std::fabs(y[q] - r[q]) <= tol)) c.fail("output row " + std::to_string(i) + " column " + std::to_string(j) + " = " + fstr(y[q]) + ", expected " + fstr(r[q]));
            s += y[q];
        }
        if (!(std::fabs(s - 1) <= 2e-6 + 2e-7 * k)) c.fail("row " + std::to_string(i) + " sums to " + fstr(s));
    }
    if (only_forward) return;
    size_t N = size_t(n) * k; Vec gi0 = ints(N, 3, 4);
    auto bwd = [&](const Vec& go) {
        auto tgo = keep("go", {n, k}, go), tgi = keep("gi", {n, k}, gi0);
        l.backward({tx}, ty, tgo, {tgi}); c.step();
        expect_same(c, "grad_output", vals(tgo), go); expect_same(c, "output", vals(ty), y); expect_same(c, "input", vals(tx), x);
        D e = ref::softmax_gx(n, k, y, go);
        for (int i = 0; i < n; ++i) {
            double a = 0; for (int j = 0; j < k; ++j) a += std::fabs(double(go[i * k + j]) * y[i * k + j]);
            for (int j = 0; j < k; ++j) { int q = i * k + j; double want = gi0[q] + e[q]; double tol = 1e-6 * y[q] * (std::fabs(go[q]) + a) * (1 + k * 0.05) + 2e-7 * (std::fabs(gi0[q]) + std::fabs(want)) + 1e-38;
                if (!(std::fabs(tgi.data()[q] - want) <= tol)) c.fail("grad_input row " + std::to_string(i) + " column " + std::to_string(j) + " = " + fstr(tgi.data()[q]) + ", expected " + fstr(want) + " (existing gradient " + fstr(gi0[q]) + ")"); }
        }
    };
    if (units) for (size_t u = 0; u < N; ++u) { Vec go(N, 0.f); go[u] = 2; bwd(go); }
    bwd(ints(N, 17 + salt, 9));
}
static void run(vp::Ctx& c, int n, int k, const Vec& x, bool units) { Lay l = Lay::make(dw::Softmax("s"), {{n, k}}); Keep none; run_on(c, l, none, n, k, x, units); }
SCENARIO(all_values, 4) {
    static const std::vector<A2> RC = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
    auto rc = c.pick(RC); int n = rc[0] * rc[1];
    static const Vec V4 = {0, 1, -1, 88.5f, -88.5f, 104, -1e4f, 3.4e38f, -3.4e38f, 0.001f}, V6 = {0, -1, 90, -3.4e38f, 3.4e38f}, V6T = {0, -1, 90, -90, -3.4e38f, 3.4e38f, 1e-3f};
    auto& V = n <= 4 ? V4 : c.thorough() ? V6T : V6;
    Vec x(n); for (auto& v : x) v = c.pick(V);
    if (c.telling()) { std::string t; for (float f : x) t += fstr(f) + " "; c.tell(rc[0], "x", rc[1], " x=", t); }
    c.state(vp::mix(hv(x), rc[0]));
    run(c, rc[0], rc[1], x, true);
}
SCENARIO(shapes, 2) {
    int n = c.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100}), k = c.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 1000});
    int pat = c.choose(6);
    c.tell(n, "x", k, " pattern ", pat); c.state(vp::mix(vp::mix(n, k), pat));
    Vec x = gen(size_t(n) * k, [&](size_t i) -> double { int r = int(i / k), j = int(i % k);
        switch (pat) { case 0: return scat(i, 5, 8); case 1: return scat(i, 6, 50) + r * 1000.0; case 2: return -1e30 * r + scat(i, 7, 3); case 3: return (r + j) % k == 0 ? 3e38 : -3e38; case 4: return j == (r * 3) % k ? 60 : -60; default: return 100; } });
    run(c, n, k, x, size_t(n) * k <= 40);
}
SCENARIO(large, 2) {
    static const std::vector<A2> S = {{130, 3}, {257, 10}, {520, 4}, {1030, 3}, {300, 33}, {5, 1030}, {3, 2050}, {2, 5000}, {70000, 2}, {1, 70000}, {1500, 1}, {130, 130}};
    A2 s = c.pick(S); int n = s[0], k = s[1], pat = c.choose(4); c.tell(n, "x", k, " pattern ", pat); c.state(vp::mix(vp::mix(n, k), pat + 100));
    Vec x = gen(size_t(n) * k, [&](size_t i) -> double { int r = int(i / k), j = int(i % k); switch (pat) { case 0: return scat(i, 5, 8); case 1: return scat(i, 6, 50) + (r % 7) * 1000.0; case 2: return j == k - 1 ? 20 : scat(i, 7, 2); default: return j == (r * 3) % k ? 60 : -60; } });
    run(c, n, k, x, false);
}
// one layer over batches of changing sizes, all sequences of forward and forward+backward; and many hundred passes
static const std::vector<A2> SER = {{2, 3}, {3, 2}, {1, 6}, {5, 3}, {2, 9}, {1, 1}};
static Vec content(A2 s, int salt) { return gen(size_t(s[0]) * s[1], [&](size_t i) -> double { return scat(i, salt, 6) + (salt % 4 == 1 ? 300 : salt % 4 == 2 ? -1e4 : salt % 4 == 3 && i % 3 == 0 ? 95 : 0); }); }
SCENARIO(calls, 3) {
    Lay l = Lay::make(dw::Softmax("s"), {{2, 3}}); Keep k; k.on = c.flip(); int D = c.thorough() ? 5 : 4; uint64_t st = k.on; if (k.on) c.tell("tensors overwritten in place");
    for (int d = 0; d < D; ++d) { int i = c.choose((int)SER.size()), f = d + 1 < D ? c.choose(2) : 0; c.tell(a2s(SER[i]), f ? " forward only" : ""); run_on(c, l, k, SER[i][0], SER[i][1], content(SER[i], d + i), false, d, f); st = vp::mix(vp::mix(st, i), f); c.state(st); }
}
SCENARIO(long_run, 2) { int sc = c.choose(SCHEDULES); Lay l = Lay::make(dw::Softmax("s"), {{2, 3}}); Keep k; k.on = c.flip(); int N = c.thorough() ? 70000 : 5000; c.tell(N, " passes, schedule ", sc); for (int d = 0; d < N; ++d) { auto s = SER[scheduled(sc, d, (int)SER.size())]; run_on(c, l, k, s[0], s[1], content(s, d), false, d); c.states_n(1); } }
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Softmax"}, twins::OUT | twins::GIN); }
