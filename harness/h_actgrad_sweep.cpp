// C06 (value part): every finite float of a dense grid through the optimised kernels.
#include "act.hpp"
static const size_t CH = 1 << 16;
static void one(vp::Ctx& c, const Act& a, const Vec& x, int pat) {
    size_t n = x.size();
    static const float G[3] = {1.f, -0.75f, 3e4f}, E[3] = {0.f, 2.5f, -1e-3f};
    act_bwd_check(c, a, {int(n)}, x, Vec(n, G[pat]), Vec(n, E[pat]));
    c.states_n(n); c.traces(n - 1);
}
static void sweep(vp::Ctx& c, int shift) {
    Act a = c.pick(acts());
    uint64_t k = c.choose(int((1ull << (32 - shift)) / CH));
    c.tell(aname(a), " floats from bit pattern ", k * CH << shift, " step ", 1 << shift);
    Vec x = grid_chunk(k, shift, CH, true);
    one(c, a, x, 0); if (shift) one(c, a, x, 1 + k % 2);
}
SCENARIO(grid, 2) { sweep(c, c.thorough() ? 9 : 10); }
SCENARIO_THOROUGH(all_floats, 2) { sweep(c, 0); }
SCENARIO(windows, 2) {
    Act a = c.pick(acts());
    static const std::vector<uint32_t> W = {0x00000000, 0x80000000, 0x007f8000, 0x807f8000, 0x33800000, 0xb3800000, 0x3f7f8000, 0xbf7f8000, 0x42b00000, 0xc2b00000, 0xc2ae0000, 0xc2d00000, 0x41800000, 0xc1800000};
    uint32_t b = c.pick(W);
    c.tell(aname(a), " window at ", b);
    Vec x(CH); for (size_t i = 0; i < CH; ++i) x[i] = fbits(b + uint32_t(i));
    for (int p = 0; p < 3; ++p) one(c, a, x, p);
}
