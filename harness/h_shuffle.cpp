// C28: shuffled DataLoader under every answer of the random generator.
#include "fresh.hpp"
#include "ds.hpp"
using namespace draws;
static uint32_t bucket(int i, int n) { return uint32_t((double(i) + 0.5) * 4294967296.0 / n); }
static uint32_t fair(uint64_t k, int n) { return bucket(int(k % n), n) + uint32_t(k / n * 2654435761u % (4294967296ull / (4 * n) + 1)); }
struct Run {
    vp::Ctx& c; std::shared_ptr<DS> ds; dw::DataLoader dl; int n, b, pos = 0; dw::Tensor x, y; std::vector<int> got;
    Run(vp::Ctx& c, int n, int b) : c(c), ds(std::make_shared<DS>(n, Sh{2}, Sh{1})), dl(ds, b, true), n(n), b(b) {}
    bool pull() {
        ds->asked.clear(); c.step(); bool r = dl.pull(x, y); c.check(ds->bad.empty(), ds->bad); bool full = pos + b <= n;
        c.check(r == full, std::string("pull returned ") + (r ? "true" : "false") + " after " + std::to_string(pos) + " of " + std::to_string(n) + " items with batch " + std::to_string(b)); got.clear();
        if (!full) { c.check(ds->asked.empty(), "items were consumed by a pull that returned false"); pos = 0; return false; }
        c.check(x.shape() == Sh{b, 2} && y.shape() == Sh{b, 1}, "batch shapes");
        std::set<int> seen;
        for (int i = 0; i < b; ++i) {
            float v = x.data()[i * 2]; int it = int((v - 1) / 1000);
            c.check(it >= 0 && it < n && v == DS::xv(it, 0) && x.data()[i * 2 + 1] == DS::xv(it, 1), "X row " + std::to_string(i) + " is not an item of the dataset");
            c.check(y.data()[i] == DS::yv(it, 0), "row " + std::to_string(i) + ": X is item " + std::to_string(it) + " but y = " + fstr(y.data()[i])); c.check(seen.insert(it).second, "item " + std::to_string(it) + " appears twice in a batch"); got.push_back(it);
        }
        pos += b; return true;
    }
};
SCENARIO(draws_tree, 3) {
    int n = c.range(1, c.thorough() ? 5 : 4), b = c.range(1, n + 1), left = c.thorough() ? 7 : 6; c.tell("dataset of ", n, ", batch ", b);
    uint64_t st = n * 16 + b; Run r(c, n, b);
    set([&](uint64_t k) -> uint32_t { if (left > 0) { --left; int v = c.choose(n + 2); st = vp::mix(st, v); c.tell("draw ", v < n ? std::to_string(v) : v == n ? "min" : "max"); return v < n ? bucket(v, n) : v == n ? 0 : 0xffffffffu; } return fair(k, n); });
    for (int i = 0; i < 2 * (n / b + 1) + 1; ++i) { count() = 0; r.pull(); for (int g : r.got) st = vp::mix(st, g); c.state(st); }
}
// every item of the dataset can be drawn in every batch
SCENARIO(reach, 2) {
    int n = c.range(1, c.thorough() ? 40 : 24), b = c.range(1, std::min(n, 6)); c.tell("dataset of ", n, ", batch ", b, ": every item is reachable");
    std::vector<std::set<int>> seen(n / b);
    auto note = [&](std::function<uint32_t(uint64_t)> d) { Run r(c, n, b); for (int k = 0; k < n / b; ++k) { set(d); c.check(r.pull(), "pull"); for (int g : r.got) seen[k].insert(g); } c.check(!r.pull(), "epoch too long"); };
    for (int i = 0; i < n; ++i) { note([&](uint64_t k) { return k == 0 ? bucket(i, n) : fair(k - 1, n); }); note([&](uint64_t k) { return fair(k + i, n); }); note([&](uint64_t k) { return fair(uint64_t(2 * n - 1 + i - k % n), n); }); }
    note([&](uint64_t k) { return k == 0 ? 0u : fair(k, n); }); note([&](uint64_t k) { return k == 0 ? 0xffffffffu : fair(k, n); });
    for (int s = 0; s < 40 * n; ++s) { bool all = true; for (auto& e : seen) all &= (int)e.size() == n; if (all && s > 8) break; note([&](uint64_t k) { return uint32_t(vp::mix(s + 1, k) >> 13); }); }
    for (int k = 0; k < n / b; ++k) for (int i = 0; i < n; ++i) c.check(seen[k].count(i), "item " + std::to_string(i) + " is never drawn in batch " + std::to_string(k)); c.state(vp::mix(n, b));
}
SCENARIO(reach_large, 1) {
    static const std::vector<int> S = {100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1030, 4099, 32770, 70001}; int n = c.pick(S), b = n > 2000 ? 64 : 1; c.tell("dataset of ", n, ", batch ", b, ": every item is reachable"); std::vector<char> seen(n, 0); int left = n; auto ds = std::make_shared<DS>(n, Sh{1}, Sh{1});
    auto note = [&](std::function<uint32_t(uint64_t)> d) { dw::DataLoader l(ds, b, true); dw::Tensor X, y; set(d); c.check(l.pull(X, y), "pull"); ds->asked.clear(); c.check(ds->bad.empty(), ds->bad); for (int j = 0; j < b; ++j) { int g = int((X.data()[j] - 1) / 1000); c.check(g >= 0 && g < n && DS::xv(g, 0) == X.data()[j], "not an item"); if (!seen[g]) seen[g] = 1, --left; } };
    for (int i = 0; i < n; i += b) { note([&](uint64_t k) { return bucket(int((i + k) % n), n); }); c.state(vp::mix(n, i)); }
    for (int64_t s = 0; left && s < 40ll * n / b; ++s) note([&](uint64_t k) { return uint32_t(vp::mix(s + 1, k) >> 13); });
    for (int i = 0; i < n; ++i) c.check(seen[i], "item " + std::to_string(i) + " is never drawn"); c.step();
}
SCENARIO(epochs, 1) { int n = c.range(0, c.thorough() ? 40 : 20), b = c.range(1, 22); c.tell("dataset of ", n, ", batch ", b, ", pseudo-random answers"); Run r(c, n, b); for (int e = 0; e < 4; ++e) for (int i = 0; i <= n / b; ++i) { set([&](uint64_t k) { return k > 4000 ? fair(k, n) : uint32_t(vp::mix(e * 100 + i, k) >> 11); }); r.pull(); c.state(vp::mix(vp::mix(n, b), e * 50 + i)); } }
SCENARIO(large, 1) { static const std::vector<std::array<int, 2>> S = {{1000, 64}, {257, 256}, {256, 256}, {60000, 128}, {33000, 50}, {300, 65}, {2100, 1030}, {1500, 130}, {70000, 100}}; auto p = c.pick(S); c.tell("dataset of ", p[0], ", batch ", p[1]); Run r(c, p[0], p[1]); for (int i = 0; i < p[0] / p[1] + 2; ++i) { set([&](uint64_t k) { return k > 400000 ? fair(k, p[0]) : uint32_t(vp::mix(i, k) >> 11); }); r.pull(); c.state(vp::mix(p[0], i)); } }
// a generator that repeats each answer many times in a row before it moves on
SCENARIO(stubborn, 2) { int n = c.range(1, 6), b = c.range(1, n), rep = c.pick(std::vector<int>{2, 3, 10, 100, 1000, 20000}), first = c.choose(n + 2); c.tell("dataset of ", n, ", batch ", b, ", every answer ", rep, " times in a row"); Run r(c, n, b); for (int i = 0; i < 2 * (n / b + 1); ++i) { set([&](uint64_t k) { uint64_t q = k / rep; return q == 0 && first >= n ? (first == n ? 0u : 0xffffffffu) : fair(q + first + i, n); }); r.pull(); c.state(vp::mix(vp::mix(n * 8 + b, rep), first * 100 + i)); } }
// many hundred epochs of one loader
SCENARIO(long_run, 2) { int n = c.range(1, 7), b = c.range(1, 4), mode = c.choose(2), N = c.thorough() ? 30000 : 2100; c.tell("dataset of ", n, ", batch ", b, ", ", N, " pulls"); Run r(c, n, b); std::set<int> seen; for (int i = 0; i < N; ++i) { set([&](uint64_t k) { return (mode && i + 300 < N) || k > 4000 ? fair(k + i, n) : uint32_t(vp::mix(i, k) >> 11); }); r.pull(); if (i + 300 >= N) seen.insert(r.got.begin(), r.got.end()); c.states_n(1); } if (b <= n) c.check((int)seen.size() == n, "only " + std::to_string(seen.size()) + " of " + std::to_string(n) + " items are still drawn at the end"); }
// the draws of every batch are new ones
static std::vector<fresh::Client> clients() { struct W { dw::Tensor x, y; std::shared_ptr<DS> d = std::make_shared<DS>(9, Sh{2}, Sh{1}); dw::DataLoader a{d, 3, true}, b{d, 3, true}; std::vector<dw::DataLoader> c; }; auto w = std::make_shared<W>(); auto pull = [w](dw::DataLoader& l) { if (!l.pull(w->x, w->y)) l.pull(w->x, w->y); };
    return {{"loader A", [=] { pull(w->a); }, false}, {"loader B", [=] { pull(w->b); }, false}, {"new loader", [=] { w->c.emplace_back(w->d, 3, true); pull(w->c.back()); }, false}, {"A for a whole epoch", [=] { while (w->a.pull(w->x, w->y)); }, false}, {"sequential loader", [=] { dw::DataLoader l(w->d, 3, false); pull(l); }, false}}; }
SCENARIO(fresh_draws, 2) { auto cl = clients(); fresh::sequences(c, cl, c.thorough() ? 7 : 6); }
SCENARIO(fresh_long, 1) { auto cl = clients(); fresh::many(c, cl[c.choose(4)], 1000); }
