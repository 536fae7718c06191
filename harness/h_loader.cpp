// C27: sequential DataLoader in lock-step with its reference protocol over every pull history.
#include "ds.hpp"
static const std::vector<std::pair<Sh, Sh>> IS = {{{3}, {1}}, {{}, {}}, {{1, 2, 2}, {}}, {{2}, {3}}, {{2, 1}, {1, 2}}};
struct Run {
    vp::Ctx& c; std::shared_ptr<DS> ds; dw::DataLoader dl; int n, b, pos = 0; Sh X, Y; dw::Tensor x, y; uint64_t st = 0;
    Run(vp::Ctx& c, int n, int b, Sh xs, Sh ys, void* at = nullptr) : c(c), ds(at ? std::shared_ptr<DS>(new (at) DS(n, xs, ys), [](DS* p) { p->~DS(); }) : std::make_shared<DS>(n, xs, ys)), dl(ds, b, false), n(n), b(b), X(batched(b, xs)), Y(batched(b, ys)) { st = vp::mix(vp::mix(n, b), vp::hash_str(sstr(xs) + sstr(ys))); }
    static void fill(dw::Tensor& t, float v) { std::fill_n(t.data(), t.total(), v); }
    // op: 0 pull into kept tensors, 1 fresh empty tensors, 2 poisoned right-shape tensors, 3 X wrong, 4 y wrong, 5 dataset throws at item k
    void op(int o, int k = 0) {
        c.step(); ds->asked.clear(); ds->throw_at = -1; dw::Tensor a, d;
        if (o == 0) { a = x; d = y; }
        if (o == 2 || o == 5) { a = dw::Tensor(X); d = dw::Tensor(Y); }
        if (o == 3 || o == 4) {
            static const int KINDS = 4; int w = k % KINDS; Sh s = o == 3 ? X : Y;
            if (w == 0) s.push_back(1); else if (w == 1) s[0] += 1; else if (w == 2) { if (s.size() > 1) s = {int(prod(s))}; else s = {1, s[0]}; } else s.back() = s.back() == 1 ? 2 : s.back() - 1;
            if (s == (o == 3 ? X : Y)) return;
            a = dw::Tensor(o == 3 ? s : X); d = dw::Tensor(o == 4 ? s : Y);
        }
        if (o != 1 && o != 0) { fill(a, 77.f); fill(d, 88.f); }
        Vec av = a.empty() ? Vec() : vals(a), dv = d.empty() ? Vec() : vals(d); auto ap = a.empty() ? nullptr : a.data(); auto dp = d.empty() ? nullptr : d.data();
        if (o == 5) ds->throw_at = k + 1;
        bool thrown = false, r = false; try { r = dl.pull(a, d); } catch (const std::exception&) { thrown = true; }
        c.check(ds->bad.empty(), ds->bad);
        bool full = pos + b <= n; st = vp::mix(vp::mix(st, pos), o * 8 + k); c.state(st);
        if (o == 3 || o == 4) {
            c.check(thrown, "a tensor of a wrong shape was accepted"); c.check(ds->asked.empty(), "an item was consumed although a tensor was rejected");
            expect_same(c, "X of a rejected pull", vals(a), av); expect_same(c, "y of a rejected pull", vals(d), dv); return;
        }
        if (o == 5 && full) { c.check(thrown, "the dataset's exception was swallowed"); return; } // position must not have advanced: later pulls tell
        c.check(!thrown, "a valid pull threw"); c.check(a.shape() == X && d.shape() == Y, "shapes after pull: " + sstr(a.shape()) + " " + sstr(d.shape()));
        if (ap) c.check(a.data() == ap && d.data() == dp, "tensors of the right shape were not reused in place");
        c.check(r == full, std::string("pull returned ") + (r ? "true" : "false") + " at position " + std::to_string(pos));
        if (!full) { c.check(ds->asked.empty(), "items were consumed by a pull that returned false"); if (ap) { expect_same(c, "X of a false pull", vals(a), av); expect_same(c, "y of a false pull", vals(d), dv); } pos = 0; }
        else {
            c.check((int)ds->asked.size() == b, "number of items requested");
            size_t xc = DS::cnt(ds->xs), yc = DS::cnt(ds->ys);
            for (int i = 0; i < b; ++i) {
                for (size_t j = 0; j < xc; ++j) c.check(a.data()[i * xc + j] == DS::xv(pos + i, j), "X row " + std::to_string(i) + " does not hold item " + std::to_string(pos + i));
                for (size_t j = 0; j < yc; ++j) c.check(d.data()[i * yc + j] == DS::yv(pos + i, j), "y row " + std::to_string(i) + " does not hold item " + std::to_string(pos + i));
            }
            pos += b;
        }
        x = a; y = d;
    }
};
// several plain epochs, every size and batch size, every item shape
SCENARIO(epochs, 2) {
    int M = c.thorough() ? 24 : 14; int n = c.range(0, M), b = c.range(1, M + 2); auto& s = c.pick(IS); c.tell("dataset of ", n, ", batch ", b, ", items ", sstr(s.first), " ", sstr(s.second));
    Run r(c, n, b, s.first, s.second); for (int i = 0; i < 3 * (n / b + 1) + 1; ++i) r.op(i % 3 == 2 ? 2 : i == 0 ? 1 : 0);
}
SCENARIO(large, 1) { static const std::vector<std::array<int, 2>> S = {{1000, 64}, {257, 256}, {256, 256}, {255, 256}, {4096, 1}, {999, 333}, {70000, 1000}, {70000, 7}, {1100, 520}, {2100, 1030}, {130, 129}}; static const std::vector<std::pair<Sh, Sh>> L = {{{3}, {1}}, {{2, 3, 2}, {5}}, {{1}, {1}}}; auto p = c.pick(S); auto& q = c.pick(L); c.tell("dataset of ", p[0], ", batch ", p[1]); Run r(c, p[0], p[1], q.first, q.second); for (int i = 0; i < 2 * (p[0] / p[1] + 1) + 1; ++i) r.op(0); }
SCENARIO(big_items, 1) { static const std::vector<std::pair<Sh, Sh>> L = {{{300}, {1}}, {{2}, {300}}, {{3, 32, 32}, {10}}, {{1, 1030}, {1030, 1}}, {{70000}, {1}}, {{1}, {70000}}, {{2, 2, 2, 2, 2}, {1, 1, 1, 1}}}; auto& q = c.pick(L); int n = c.range(1, 5), b = c.range(1, 3); c.tell("dataset of ", n, ", batch ", b, ", items ", sstr(q.first), " ", sstr(q.second)); Run r(c, n, b, q.first, q.second); for (int i = 0; i < 2 * (n / b + 1) + 1; ++i) r.op(i % 3 == 2 ? 2 : i == 0 ? 1 : 0); }
// every history of valid, rejected and failing pulls
SCENARIO(histories, 3) {
    int n = c.range(0, 5), b = c.range(1, 4); auto& s = IS[c.choose(c.thorough() ? 5 : 3)]; int D = c.thorough() ? 6 : 4; c.tell("dataset of ", n, ", batch ", b, ", items ", sstr(s.first), " ", sstr(s.second));
    static const char* N[] = {"pull", "pull into empty tensors", "pull into other tensors", "pull with wrong X", "pull with wrong y", "pull, dataset throws"};
    Run r(c, n, b, s.first, s.second);
    for (int d = 0; d < D; ++d) { int o = c.choose(6), k = 0; if (o == 3 || o == 4) k = c.choose(d == 0 ? 4 : 2); if (o == 5) k = c.choose(b); c.tell(N[o], " ", k); r.op(o, k); }
    for (int i = 0; i < 3; ++i) r.op(0);
}
// two loaders on one dataset and one set of tensors are independent
SCENARIO(two_loaders, 2) {
    int n = c.range(1, 5), b = c.range(1, 3); auto ds = std::make_shared<DS>(n, Sh{2}, Sh{1}); dw::DataLoader l[2] = {{ds, b, false}, {ds, b, false}}; int pos[2] = {0, 0}; dw::Tensor x, y; c.tell("two loaders, dataset of ", n, ", batch ", b); uint64_t st = n * 8 + b;
    for (int d = 0; d < 7; ++d) { int w = c.choose(2); c.tell("pull ", w); c.step(); bool r = l[w].pull(x, y), e = pos[w] + b <= n; c.check(r == e, "pull result"); if (r) { for (int i = 0; i < b; ++i) c.check(x.data()[i * 2] == DS::xv(pos[w] + i, 0) && y.data()[i] == DS::yv(pos[w] + i, 0), "row " + std::to_string(i)); pos[w] += b; } else pos[w] = 0; st = vp::mix(st, w); c.state(st); }
}
// many hundred epochs of one loader
SCENARIO(long_run, 2) { int n = c.range(0, 7), b = c.range(1, 4), mode = c.choose(3), N = c.thorough() ? 40000 : 3000; c.tell("dataset of ", n, ", batch ", b, ", ", N, " pulls"); Run r(c, n, b, {2}, {1}); for (int i = 0; i < N; ++i) r.op(mode == 0 ? (i ? 0 : 1) : mode == 1 ? i % 3 : i % 50 == 49 ? 3 + i / 50 % 2 : 2); }

// datasets and loaders that come and go, so that a new one may live where another has been
SCENARIO(lives, 4) {
    struct Kind { int n; Sh x, y; }; static const std::vector<Kind> K = {{4, {3}, {1}}, {4, {2}, {3}}, {4, {1, 2, 2}, {}}, {5, {3}, {1}}, {2, {}, {}}}; int D = c.thorough() ? 4 : 3; uint64_t st = 0; int order = c.choose(2); alignas(DS) static char place[sizeof(DS)]; // the same address every time
    for (int d = 0; d < D; ++d) { auto& k = K[c.choose((int)K.size())]; int b = c.range(1, 2), pulls = c.pick(std::vector<int>{1, 3}); c.tell("dataset of ", k.n, " items ", sstr(k.x), " ", sstr(k.y), ", batch ", b, ", ", pulls, " pulls"); Run r(c, k.n, b, k.x, k.y, place); for (int i = 0; i < pulls; ++i) r.op(order ? i % 3 : 1); st = vp::mix(st, &k - &K[0] + b * 16 + pulls * 64); c.state(st); }
}
