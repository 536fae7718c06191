// C23: SGD and momentum.
#include "opt.hpp"
using namespace optim;
static const std::vector<Cfg> K = {{0, 0.5f}, {0, 0.125f}, {1, 0.5f, 0.5f}, {1, 0.25f, 0.75f}, {1, 0.5f, 0.f}, {1, 1.f, 1.f}};
static const std::vector<std::pair<std::string, Sh>> PS = {{"l.weight", {3, 3}}, {"l.bias", {2}}};
SCENARIO(histories, 3) { auto& k = c.pick(K); history(c, k, PS, c.thorough() ? 6 : 5, true); }
SCENARIO(training, 3) { auto& k = c.pick(K); training(c, k, PS, c.thorough() ? 5 : 4, true); }
SCENARIO(sizes, 2) { auto k = K[c.choose(6)]; sizes(c, k, c.range(1, 70), true); }
SCENARIO(big, 1) { static const std::vector<int> N = {1000, 4097, 70001, 1050001}; auto k = K[c.choose(4)]; sizes(c, k, c.pick(N), true); }
SCENARIO(inexact, 2) { static const std::vector<Cfg> Q = {{0, 0.1f}, {0, 1e-3f}, {1, 0.1f, 0.9f}, {1, 0.01f, 0.99f}, {1, 0.1f, 0.9f, 0, 0, 0, 0, true}}; auto k = c.pick(Q); training(c, k, PS, c.thorough() ? 4 : 3, false); }
SCENARIO(two, 3) { auto& k = c.pick(K); two(c, k); }
SCENARIO(extremes, 3) { auto& k = c.pick(K); extremes(c, k, c.thorough() ? 4 : 3); }
SCENARIO(many, 1) { auto k = K[c.choose(4)]; many(c, k, c.pick(std::vector<int>{6, 7, 8, 9, 10, 16, 17, 20, 33, 65, 129, 300}), true); }
// long runs
SCENARIO(long_run, 1) { static const std::vector<Cfg> Q = {{0, 0.0625f}, {1, 0.0625f, 0.5f}, {1, 0.01f, 0.9f}}; int q = c.choose(3), fz = c.choose(3); Sys s(c, Q[q], PS, false); c.tell(Q[q].str(), ", 1200 steps, A frozen in steps of class ", fz); for (int i = 0; i < 1200; ++i) { s.grad("l.weight", i % 3); s.grad("l.bias", (i / 7) % 3); if (fz && i % (100 * fz) == 5) s.freeze("l.weight"); if (i == 600) s.set_lr(0.03125f); s.step(); if (i < 20 || i % 10 == 0) { s.verify(); for (auto& kv : s.r) { Vec w = vals(s.pm.at(kv.first).data()); kv.second.w.assign(w.begin(), w.end()); } } } c.state(vp::mix(s.st, fz)); }
SCENARIO(lives, 3) { lives(c, K); }
