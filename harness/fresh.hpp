// Sequences of operations that draw random numbers: none may use an engine state that was used before.
#pragma once
#include "draws.hpp"
namespace fresh {
struct Client { std::string name; std::function<void()> run; bool draws = true; };
inline void sequences(vp::Ctx& c, std::vector<Client>& cl, int D, uint64_t salt = 0) {
    draws::set([salt](uint64_t k) { return uint32_t(vp::mix(salt + 17, k) >> 13); }); draws::Watching w; uint64_t st = 1 + salt;
    for (int d = 0; d < D; ++d) { int op = c.choose((int)cl.size()); c.tell(cl[op].name); uint64_t before = draws::count(); cl[op].run(); c.step(); w.verify(c); if (cl[op].draws) c.check(draws::count() > before, cl[op].name + " drew no random number"); st = vp::mix(st, op); c.state(st); }
}
// the same operation many times
inline void many(vp::Ctx& c, Client& cl, int N) { c.tell(cl.name, " ", N, " times"); draws::Watching w; for (int i = 0; i < N; ++i) { draws::set([i](uint64_t k) { return uint32_t(vp::mix(i + 1000, k) >> 13); }); cl.run(); c.step(); w.verify(c); c.states_n(1); } }
} // namespace fresh
