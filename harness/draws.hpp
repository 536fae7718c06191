// Harness side of rng.hpp.
#pragma once
#include "dwh.hpp"
#include <unordered_map>
namespace draws {
inline std::function<uint32_t(uint64_t)>& source() { static std::function<uint32_t(uint64_t)> f; return f; } // k-th draw since reset
inline uint64_t& count() { static uint64_t n = 0; return n; }
inline void set(std::function<uint32_t(uint64_t)> f) { source() = f; count() = 0; }
const uint32_t LOW = 0, HIGH = 0xffffffffu, MID = 0x80000000u;
}
// While watching: no engine state may be used for two draws.
namespace draws {
struct Watch { std::unordered_map<uint64_t, uint64_t> next; bool on = false, replayed = false; std::string what; };
inline Watch& watch() { static Watch w; return w; }
struct Watching { Watching() { watch() = Watch(); watch().on = true; } ~Watching() { watch().on = false; } void verify(vp::Ctx& c) { if (watch().replayed) c.fail(watch().what); } };
}
extern "C" uint32_t vp_draw(uint64_t stream, uint64_t pos) {
    auto& w = draws::watch(); if (w.on) { auto it = w.next.find(stream); if (it != w.next.end() && pos < it->second && !w.replayed) w.replayed = true, w.what = "random numbers are replayed: draw " + std::to_string(pos) + " of a generator is used again after draw " + std::to_string(it->second - 1); auto& n = w.next[stream]; n = std::max(n, pos + 1); }
    uint64_t k = draws::count()++;
    if (k > 3000000) throw vp::Violation{"the random generator is asked without end (" + std::to_string(k) + " draws in one operation)"};
    return draws::source() ? draws::source()(k) : uint32_t(vp::mix(99, k) >> 16);
}
