// C05 (value part): every float of a dense grid through the optimised kernels.
#include "act.hpp"
static const size_t CH = 1 << 16;
static void sweep(vp::Ctx& c, int shift) {
    Act a = c.pick(acts());
    uint64_t k = c.choose(int((1ull << (32 - shift)) / CH));
    c.tell(aname(a), " floats from bit pattern ", k * CH << shift, " step ", 1 << shift);
    act_fwd_check(c, a, {int(CH)}, grid_chunk(k, shift, CH, false));
    c.states_n(CH); c.traces(CH - 1);
}
SCENARIO(grid, 2) { sweep(c, c.thorough() ? 8 : 9); }
SCENARIO_THOROUGH(all_floats, 2) { sweep(c, 0); }
// dense windows around the points where the formulas change
SCENARIO(windows, 2) {
    Act a = c.pick(acts());
    static const std::vector<uint32_t> W = {0x00000000, 0x80000000, 0x007f8000, 0x807f8000, 0x33800000, 0xb3800000, 0x3f7f8000, 0xbf7f8000, 0x42b00000, 0xc2b00000, 0xc2ae0000, 0xc2d00000, 0x7f7f8000, 0xff7f8000, 0x41800000, 0xc1800000};
    uint32_t b = c.pick(W);
    c.tell(aname(a), " window at ", b);
    Vec x(CH); for (size_t i = 0; i < CH; ++i) { float f = fbits(b + uint32_t(i)); x[i] = std::isnan(f) ? 0.f : f; }
    act_fwd_check(c, a, {int(CH)}, x); c.states_n(CH); c.traces(CH - 1);
}
