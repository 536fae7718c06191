// C24: Adam.
#include "opt.hpp"
using namespace optim;
static const std::vector<Cfg> K = {{2, 0.5f, 0, 0.9f, 0.999f, 0.001f, 0, true}, {2, 0.5f, 0, 0.9f, 0.999f, 1e-5f, 0}, {2, 0.25f, 0, 0.5f, 0.75f, 0.1f, 0}, {2, 0.5f, 0, 0.f, 0.5f, 0.01f, 0}, {2, 0.5f, 0, 0.8f, 0.9f, 1e-3f, 3}, {2, 0.1f, 0, 0.9f, 0.999f, 1e-3f, 1000}};
static const std::vector<std::pair<std::string, Sh>> PS = {{"l.weight", {3, 3}}, {"l.bias", {2}}};
SCENARIO(histories, 3) { auto& k = c.pick(K); history(c, k, PS, c.thorough() ? 6 : 5, false); }
SCENARIO(training, 3) { auto& k = c.pick(K); training(c, k, PS, c.thorough() ? 5 : 4, false); }
SCENARIO(sizes, 2) { auto k = K[c.choose(6)]; sizes(c, k, c.range(1, 70), false); }
SCENARIO(big, 1) { static const std::vector<int> N = {1000, 4097, 70001, 1050001}; auto k = K[c.choose(4)]; sizes(c, k, c.pick(N), false); }
SCENARIO(two, 3) { auto& k = c.pick(K); two(c, k); }
// long runs: the step counter and bias correction far from the start
SCENARIO(long_run, 1) { auto& k = c.pick(K); int fz = c.choose(4); Sys s(c, k, PS, false); c.tell(k.str(), ", 200 steps, A frozen in steps of class ", fz); for (int i = 0; i < 200; ++i) { s.grad("l.weight", i % 3); s.grad("l.bias", (i / 7) % 3); if (fz && i % (10 * fz) == 5) s.freeze("l.weight"); if (i == 100) s.set_lr(0.0625f); s.step(); if (i < 20 || i % 10 == 0) s.verify(); } c.state(vp::mix(s.st, fz)); }
SCENARIO(extremes, 3) { auto& k = c.pick(K); extremes(c, k, c.thorough() ? 4 : 3); }
SCENARIO(many, 1) { auto k = K[c.choose(4)]; many(c, k, c.pick(std::vector<int>{6, 7, 8, 9, 10, 16, 17, 20, 33, 65, 129, 300}), false); }
// counters far from the start, where the slow average is still biased
SCENARIO(late, 2) { static const std::vector<Cfg> Q = {{2, 0.5f, 0, 0.9f, 0.9999f, 1e-3f, 260}, {2, 0.5f, 0, 0.99f, 0.9999f, 1e-3f, 5000}, {2, 0.25f, 0, 0.9f, 0.99999f, 1e-3f, 40000}, {2, 0.25f, 0, 0.999f, 0.99999f, 1e-2f, 70000}}; auto& k = c.pick(Q); training(c, k, PS, 3, false); }
SCENARIO(lives, 3) { lives(c, K); }
