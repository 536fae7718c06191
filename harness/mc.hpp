// Stateless explicit exploration engine used by every harness.
//
// A scenario is a function of a Ctx. Every nondeterministic decision (shape, value,
// operation, random-generator answer, topological order, fault position, scheduling
// decision) is one Ctx::choose(n). The engine runs the scenario once for every leaf
// of the resulting choice tree (depth-first, nothing is sampled), so a run is
// identified by its choice path and can be replayed from it. The tree is split over
// worker processes by choice prefix. A worker that crashes, trips a sanitizer, exits
// or stops making progress is a counterexample at the path it had reached.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vp {

struct Skip {};
struct Violation { std::string msg; };

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char*>(p);
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
    uint64_t v = 0; memcpy(&v, b, n); return mix(h, v ^ (uint64_t(n) << 56));
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Shared;   // per-worker progress record in shared memory

class Ctx {
public:
    int choose(int n, const char* what = "");
    bool flip(const char* what = "") { return choose(2, what) == 1; }
    template <typename T> const T& pick(const std::vector<T>& v, const char* what = "") { return v[choose((int)v.size(), what)]; }
    // a..b inclusive
    int range(int a, int b, const char* what = "") { return a + choose(b - a + 1, what); }

    void state(uint64_t h) { m_states_add(h); }
    // n states that are distinct by construction (counted, not stored)
    void states_n(uint64_t n) { m_extra += n; }
    void step(uint64_t n = 1);
    void traces(uint64_t n) { m_traces += n; }
    [[noreturn]] void fail(const std::string& msg) { throw Violation{msg}; }
    void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
    // Text of the current run; built only when somebody will read it.
    bool telling() const { return m_tell; }
    template <typename... A> void tell(const A&... a) {
        if (!m_tell) return;
        std::ostringstream os; (void)std::initializer_list<int>{(os << a, 0)...};
        m_text += os.str(); m_text += "; ";
    }
    bool thorough() const { return m_thorough; }

    // engine side
    struct Ch { int val, n; };
    std::vector<Ch> m_path;
    size_t m_pos = 0;
    size_t m_split = 0; int m_shard = 0, m_nshards = 1; bool m_replay = false;
    bool m_checked = false;
    bool m_tell = false, m_thorough = false;
    std::string m_text;
    uint64_t m_transitions = 0, m_traces = 0, m_extra = 0, m_leaves = 0;
    Shared* m_shared = nullptr;
    std::vector<uint64_t> m_hashes; size_t m_compact_at = 1 << 20;
    void m_states_add(uint64_t h);
    void shard_check();
};

using Body = std::function<void(Ctx&)>;
struct Scenario { std::string name; int split; Body body; bool quick; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* name, int split, Body b, bool quick = true) { scenarios().push_back({name, split, b, quick}); } };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
// SCENARIO(name, split): `split` leading choices distribute the tree over workers.
#define SCENARIO(name, split) \
    static void VP_CAT(scn_, name)(vp::Ctx& c); \
    static vp::Reg VP_CAT(reg_, name)(#name, split, VP_CAT(scn_, name)); \
    static void VP_CAT(scn_, name)(vp::Ctx& c)
#define SCENARIO_THOROUGH(name, split) \
    static void VP_CAT(scn_, name)(vp::Ctx& c); \
    static vp::Reg VP_CAT(reg_, name)(#name, split, VP_CAT(scn_, name), false); \
    static void VP_CAT(scn_, name)(vp::Ctx& c)

// True when this process explores (not just lists); harness hooks.
void on_worker_start(std::function<void()> f);

} // namespace vp
