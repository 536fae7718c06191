// C14: every computation that runs on several threads, under every schedule within the bounds.
#include "draws.hpp"
#include "work.hpp"
using namespace work;
namespace {
std::vector<int> of_size(int lo, int hi) { std::vector<int> r; for (size_t i = 0; i < cases().size(); ++i) if (cases()[i].size >= lo && cases()[i].size <= hi) r.push_back((int)i); return r; }
Out once(vp::Ctx& c, const Case& k, const sched::Opts& o, sched::Stats& st) { draws::set(nullptr); sched::begin(c, o); Out r; try { r = k.run(); } catch (const std::exception& e) { sched::end(); throw; } sched::end(); st = sched::stats(); return r; }
void same(vp::Ctx& c, const Case& k, const Out& a, const Out& b) {
    c.check(a.size() == b.size(), "number of results");
    for (size_t i = 0; i < a.size(); ++i) if (k.tol == 0) { c.check(a[i].second.size() == b[i].second.size(), "size of " + b[i].first); for (size_t j = 0; j < a[i].second.size(); ++j) if (bits(a[i].second[j]) != bits(b[i].second[j])) c.fail(b[i].first + "[" + std::to_string(j) + "] = " + fstr(a[i].second[j]) + " on several threads, " + fstr(b[i].second[j]) + " on one"); } else expect_vec(c, b[i].first + " on several threads", a[i].second, b[i].second, k.tol, k.tol);
}
struct Base { Out ref; std::map<int, sched::Stats> st; };
std::map<int, Base> bases;
void explore(vp::Ctx& c, int ci, int T, int preemptions, bool acc) {
    auto& k = cases()[ci]; c.tell(k.name, ", ", T, " threads"); sched::Stats st; auto& b = bases[ci];
    if (b.ref.empty()) b.ref = once(c, k, {1, 0, false, -2}, st);      // the sequential result
    if (!b.st.count(T)) { same(c, k, once(c, k, {T, 0, false, -2}, st), b.ref); same(c, k, once(c, k, {T, 0, false, -2}, st), b.ref); b.st[T] = st; c.step(2); }
    int R = (int)b.st[T].regions; if (!R) { c.state(vp::mix(ci, T)); return; }
    int reg = c.choose(R, "region"); c.tell("parallel region ", reg);
    same(c, k, once(c, k, {T, preemptions, acc, reg}, st), b.ref); c.step();
    uint64_t h = vp::mix(ci, T); for (size_t i = 2; i < c.m_pos; ++i) h = vp::mix(h, c.m_path[i].val); c.state(h);
}
}
// every order in which the threads of a team can run to completion (and, at synchronisation points, up to one preemption)
SCENARIO(orders, 2) { auto ks = of_size(0, 1); int ci = ks[c.choose((int)ks.size(), "case")]; int T = c.range(2, 4, "threads"); explore(c, ci, T, T == 2 || c.thorough() ? 1 : 0, false); }
SCENARIO(orders_large, 2) { auto ks = of_size(2, 2); int ci = ks[c.choose((int)ks.size(), "case")]; int T = c.range(2, c.thorough() ? 4 : 3, "threads"); explore(c, ci, T, 0, false); }
// tiny cases: one preemption at every memory access that is not to the thread's own stack
SCENARIO(preempt_access, 2) { auto ks = of_size(0, 0); int ci = ks[c.choose((int)ks.size(), "case")]; int T = c.range(2, c.thorough() ? 3 : 2, "threads"); explore(c, ci, T, 1, true); }
SCENARIO_THOROUGH(preempt_sync2, 2) { auto ks = of_size(0, 1); int ci = ks[c.choose((int)ks.size(), "case")]; int T = c.range(2, 3, "threads"); explore(c, ci, T, 2, false); }
SCENARIO_THOROUGH(preempt_small, 2) { auto ks = of_size(1, 1); int ci = ks[c.choose((int)ks.size(), "case")]; explore(c, ci, 2, 1, true); }
