// C33: layout conversions.
#include "dwh.hpp"
#include <deepworks/utils/utils.hpp>
static void run(vp::Ctx& c, int n, int ch, int h, int w, int pat) {
    Sh a{n, ch, h, w}, b{n, h, w, ch};
    Vec x = gen(prod(a), [&](size_t i) { return pat == 0 ? double(i + 1) : pat == 1 ? -0.0 : double(scat(i, 3, 1000)) / 8; });
    if (pat == 1) for (size_t i = 0; i < x.size(); ++i) x[i] = fbits(uint32_t(0x7fc00000 + i * 2654435761u)); // NaN payloads, infinities, denormals, any bit pattern
    auto ta = mk(a, x); dw::Tensor tb(b), tc(a);
    dw::utils::NCHW2NHWC(ta, tb); c.step();
    auto at = [&](int i, int q, int y, int z) { return ((size_t(i) * ch + q) * h + y) * w + z; };
    auto bt = [&](int i, int q, int y, int z) { return ((size_t(i) * h + y) * w + z) * ch + q; };
    for (int i = 0; i < n; ++i) for (int q = 0; q < ch; ++q) for (int y = 0; y < h; ++y) for (int z = 0; z < w; ++z)
        if (bits(tb.data()[bt(i, q, y, z)]) != bits(x[at(i, q, y, z)])) c.fail("NCHW2NHWC: element (" + std::to_string(i) + "," + std::to_string(q) + "," + std::to_string(y) + "," + std::to_string(z) + ") is " + fstr(tb.data()[bt(i, q, y, z)]) + ", expected " + fstr(x[at(i, q, y, z)]));
    expect_same(c, "source", vals(ta), x);
    Vec bv = vals(tb);
    dw::utils::NHWC2NCHW(tb, tc); c.step();
    for (size_t i = 0; i < x.size(); ++i) if (bits(tc.data()[i]) != bits(x[i])) c.fail("round trip: element " + std::to_string(i) + " is " + fstr(tc.data()[i]) + ", expected " + fstr(x[i]));
    expect_same(c, "source of NHWC2NCHW", vals(tb), bv);
    c.check(ta.shape() == a && tb.shape() == b && tc.shape() == a, "shape changed");
}
SCENARIO(grid, 3) {
    int M = c.thorough() ? 9 : 6; int n = c.range(1, 4), ch = c.range(1, M), h = c.range(1, M), w = c.range(1, M), p = c.choose(3);
    c.tell("n=", n, " c=", ch, " h=", h, " w=", w, " pattern ", p); c.state(vp::hash_str(sstr({n, ch, h, w, p}))); run(c, n, ch, h, w, p);
}
SCENARIO(large, 1) {
    static const std::vector<Sh> S = {{1, 3, 224, 224}, {2, 64, 7, 9}, {1, 1, 1, 5000}, {1, 5000, 1, 1}, {5000, 1, 1, 1}, {1, 1, 5000, 1}, {17, 16, 8, 4}, {1, 33, 31, 2}, {3, 2, 65, 64}, {1, 128, 16, 16}, {2, 300, 3, 2}, {300, 2, 3, 3}, {1, 2, 1030, 3}, {1, 3, 3, 1030}, {2, 1030, 1, 3}, {1030, 3, 2, 1}, {1, 5, 500, 450}, {1, 1, 1100, 1000}, {2, 70000, 1, 2}};
    Sh s = c.pick(S); c.tell(sstr(s)); c.state(vp::hash_str(sstr(s))); for (int p = 0; p < 3; ++p) run(c, s[0], s[1], s[2], s[3], p);
}
// the same tensors converted again and again, their contents changed in place in between
SCENARIO(repeated, 3) {
    static const std::vector<Sh> S = {{1, 2, 2, 3}, {2, 3, 4, 5}, {1, 3, 16, 16}}; Sh s = S[c.choose(3)], b{s[0], s[2], s[3], s[1]}; auto ta = mk(s, ints(prod(s), 3, 50)); dw::Tensor tb(b); bool fwd = true; c.tell(sstr(s)); uint64_t st = vp::hash_str(sstr(s)); int D = c.thorough() ? 6 : 5;
    auto idx = [&](size_t i) { size_t w = i % s[3], y = i / s[3] % s[2], q = i / (s[3] * s[2]) % s[1], n = i / (size_t(s[3]) * s[2] * s[1]); return ((n * s[2] + y) * s[3] + w) * s[1] + q; };
    static const char* NM[] = {"convert to NHWC", "convert to NCHW", "change one inner element of the NCHW tensor", "change one inner element of the NHWC tensor", "change all", "convert another pair"};
    for (int d = 0; d < D; ++d) { int op = c.choose(6); c.tell(NM[op]); Vec a = vals(ta), e = vals(tb);
        if (op == 0) { dw::utils::NCHW2NHWC(ta, tb); for (size_t i = 0; i < a.size(); ++i) e[idx(i)] = a[i]; } else if (op == 1) { dw::utils::NHWC2NCHW(tb, ta); for (size_t i = 0; i < a.size(); ++i) a[i] = e[idx(i)]; }
        else if (op == 2) { a[a.size() / 2] = 1000.f + d; setv(ta, a); } else if (op == 3) { e[e.size() / 2] = 2000.f + d; setv(tb, e); } else if (op == 4) { for (size_t i = 0; i < a.size(); ++i) { a[i] += 7; e[i] -= 9; } setv(ta, a); setv(tb, e); }
        else { auto x = mk(s, ints(prod(s), 90 + d, 9)); dw::Tensor y(b); dw::utils::NCHW2NHWC(x, y); for (size_t i = 0; i < a.size(); ++i) if (y.data()[idx(i)] != x.data()[i]) c.fail("NCHW2NHWC of another pair: element " + std::to_string(i)); }
        if (op < 2 || op == 5) c.step(); expect_same(c, "NCHW tensor", vals(ta), a); expect_same(c, "NHWC tensor", vals(tb), e); st = vp::mix(st, op); c.state(st); }
}
