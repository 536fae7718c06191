// C01: Tensor handles against a reference heap of descriptors, after every step of every
// operation sequence.
#include "dwh.hpp"
#include <memory>

namespace {
struct Desc { Sh shape; size_t total = 0; bool wrapped = false; float* data = nullptr; Vec v; int id; };
using DP = std::shared_ptr<Desc>;
const Sh NEG{-1};

struct World {
    vp::Ctx& c;
    std::vector<dw::Tensor> h; std::vector<DP> m;
    std::vector<std::unique_ptr<Vec>> bufs; std::vector<Vec> bufs_expect;   // user buffers
    std::vector<DP> buf_owner;
    int next = 1, wr = 1;
    World(vp::Ctx& c, int n) : c(c) { for (int i = 0; i < n; ++i) { h.emplace_back(); m.push_back(fresh()); } verify(); }
    DP fresh() { auto d = std::make_shared<Desc>(); d->id = next++; return d; }
    static bool bad(const Sh& s) { for (int d : s) if (d < 0) return true; return false; }
    static size_t tot(const Sh& s) { size_t r = 1; for (int d : s) r *= size_t(d); return r; }
    void fillv(DP d) { for (size_t i = 0; i < d->total; ++i) { float x = wr * 16 + int(i); d->data[i] = x; d->v[i] = x; } ++wr; }
    void sync_bufs() { for (size_t b = 0; b < bufs.size(); ++b) if (auto d = buf_owner[b]) if (d->wrapped && d->data == bufs[b]->data()) std::copy(d->v.begin(), d->v.end(), bufs_expect[b].begin()); }
    void verify() {
        sync_bufs();
        for (size_t i = 0; i < h.size(); ++i) {
            auto& t = h[i]; auto& d = *m[i];
            struct W { size_t i; std::string operator+(const std::string& s) const { return "handle " + std::to_string(i) + ": " + s; } } w{i};
            if (t.shape() != d.shape) c.fail(w + "shape " + sstr(t.shape()) + " expected " + sstr(d.shape));
            if (t.total() != d.total) c.fail(w + "total " + std::to_string(t.total()) + " expected " + std::to_string(d.total));
            if (t.empty() != (d.total == 0)) c.fail(w + "empty() disagrees with total " + std::to_string(d.total));
            if (t.strides().size() != d.shape.size()) c.fail(w + "number of strides " + std::to_string(t.strides().size()));
            size_t st = 1; for (size_t k = d.shape.size(); k-- > 0;) { if (t.strides()[k] != st) c.fail(w + "stride " + std::to_string(k) + " is " + std::to_string(t.strides()[k]) + " expected " + std::to_string(st)); st *= size_t(d.shape[k]); }
            if (t.data() != d.data) c.fail(w + "data address changed");
            for (size_t k = 0; k < d.total; ++k) if (bits(t.data()[k]) != bits(d.v[k])) c.fail(w + "element " + std::to_string(k) + " is " + fstr(t.data()[k]) + " expected " + fstr(d.v[k]));
        }
        for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < i; ++j) if (m[i] != m[j] && m[i]->total && m[j]->total) {
            auto a = m[i]->data, b = m[j]->data;
            if (a < b + m[j]->total && b < a + m[i]->total) c.fail("unrelated handles " + std::to_string(j) + " and " + std::to_string(i) + " share memory");
        }
        for (size_t b = 0; b < bufs.size(); ++b) if (!same_bits(*bufs[b], bufs_expect[b])) c.fail("user buffer changed by something other than a write through its tensor");
        uint64_t k = 7; std::vector<int> first(h.size());
        for (size_t i = 0; i < h.size(); ++i) { size_t f = i; for (size_t j = 0; j < i; ++j) if (m[j] == m[i]) { f = j; break; } k = vp::mix(k, f); k = vp::mix(k, m[i]->total * 2 + m[i]->wrapped); for (int x : m[i]->shape) k = vp::mix(k, x + 9); k = vp::mix(k, 77); for (float x : m[i]->v) k = vp::mix(k, bits(x)); }
        c.state(k); c.step();
    }
    // after a construction or allocation: the address is the implementation's choice
    void adopt(size_t i, float* old) { auto d = m[i]; d->data = h[i].data(); if (d->total) { if (d->data == nullptr) c.fail("no memory for a non-empty tensor"); if (d->data == old) c.fail("allocate did not give fresh memory"); } d->v.assign(d->total, 0.f); fillv(d); }
    void make(int i, const Sh& s) { c.tell("h", i, "=Tensor(", sstr(s), ")");
        if (bad(s)) { bool t = throws([&] { dw::Tensor x(s); }); c.check(t, "Tensor" + sstr(s) + " accepted"); }
        else { h[i] = dw::Tensor(s); m[i] = fresh(); m[i]->shape = s; m[i]->total = tot(s); adopt(i, nullptr); }
        verify(); }
    void wrap(int i, const Sh& s) { c.tell("h", i, "=Tensor(", sstr(s), ",user)");
        if (bad(s)) { Vec dummy(4); bool t = throws([&] { dw::Tensor x(s, dummy.data()); }); c.check(t, "Tensor(" + sstr(s) + ", data) accepted"); }
        else { size_t n = tot(s); bufs.emplace_back(new Vec(n)); for (size_t k = 0; k < n; ++k) (*bufs.back())[k] = wr * 16 + int(k); ++wr; bufs_expect.push_back(*bufs.back());
            h[i] = dw::Tensor(s, bufs.back()->data()); m[i] = fresh(); m[i]->shape = s; m[i]->total = n; m[i]->wrapped = true; m[i]->data = bufs.back()->data(); m[i]->v = *bufs.back(); buf_owner.push_back(m[i]); }
        verify(); }
    void clear(int i) { c.tell("h", i, "=Tensor()"); h[i] = dw::Tensor(); m[i] = fresh(); m[i]->data = h[i].data(); verify(); }
    void copy(int i, int j) { c.tell("h", i, "=h", j); h[i] = h[j]; m[i] = m[j]; verify(); }
    void alloc(int i, const Sh& s) { c.tell("h", i, ".allocate", sstr(s));
        if (bad(s)) { bool t = throws([&] { h[i].allocate(s); }); c.check(t, "allocate" + sstr(s) + " accepted"); }
        else { float* old = m[i]->data; h[i].allocate(s); auto d = m[i]; d->shape = s; d->total = tot(s); d->wrapped = false; adopt(i, old); }
        verify(); }
    void reshape(int i, const Sh& s) { c.tell("h", i, ".reshape", sstr(s));
        bool no = bad(s) || tot(s) != m[i]->total;
        bool t = throws([&] { h[i].reshape(s); });
        if (no) c.check(t, "reshape to " + sstr(s) + " accepted"); else { c.check(!t, "reshape to " + sstr(s) + " rejected"); m[i]->shape = s; }
        verify(); }
    void copy_to(int i, int j) { c.tell("h", i, ".copyTo(h", j, ")");
        bool no = m[i]->shape != m[j]->shape || m[j]->total == 0;
        bool t = throws([&] { h[i].copyTo(h[j]); });
        if (no) c.check(t, "copyTo accepted between " + sstr(m[i]->shape) + " and " + sstr(m[j]->shape));
        else { c.check(!t, "copyTo rejected"); for (size_t k = 0; k < m[i]->total; ++k) m[j]->v[k] = m[i]->v[k]; }
        verify(); }
    void write(int i) { c.tell("write h", i); fillv(m[i]); verify(); }
    void random_step(const std::vector<Sh>& S) {
        int n = int(h.size()), k = int(S.size());
        int op = c.choose(1 + k + k + n + k + k + n + 1), i = c.choose(n);
        if (op < 1) return clear(i); op -= 1;
        if (op < k) return make(i, S[op]); op -= k;
        if (op < k) return wrap(i, S[op]); op -= k;
        if (op < n) return copy(i, op); op -= n;
        if (op < k) return alloc(i, S[op]); op -= k;
        if (op < k) return reshape(i, S[op]); op -= k;
        if (op < n) return copy_to(i, op); op -= n;
        write(i);
    }
    void finish() { // drop handles in an order that would expose double or early frees
        while (h.size() > 1) { h.erase(h.begin()); m.erase(m.begin()); verify(); }
        h.clear(); m.clear(); for (size_t b = 0; b < bufs.size(); ++b) c.check(same_bits(*bufs[b], bufs_expect[b]), "user buffer changed at destruction");
    }
};
}
SCENARIO(three_handles, 2) {
    static const std::vector<Sh> S = {{}, {0}, {2}, {1, 2}, {2, 1}, {3}, {2, 0, 3}, {-1}, {-2, -1}, {2, -1}};
    World w(c, 3);
    for (int d = 0; d < (c.thorough() ? 4 : 3); ++d) w.random_step(S);
    w.finish();
}
SCENARIO(two_handles_deep, 2) {
    static const std::vector<Sh> S = {{2}, {2, 1}, {0}, {-1, -2}};
    World w(c, 2);
    int D = c.thorough() ? 5 : 4;
    for (int d = 0; d < D; ++d) w.random_step(S);
    w.finish();
}
// deep histories over the shared-descriptor core: copy, allocate, reshape, copyTo, write
SCENARIO(sharing_deep, 3) {
    World w(c, 3);
    w.wrap(0, {2, 3}); w.copy(1, 0); w.make(2, {2, 3});
    int D = c.thorough() ? 6 : 4;
    for (int d = 0; d < D; ++d) {
        int op = c.choose(6), i = c.choose(3);
        if (op == 0) w.copy(i, (i + 1) % 3); else if (op == 1) w.alloc(i, {2, 3}); else if (op == 2) w.reshape(i, {3, 2}); else if (op == 3) w.copy_to(i, (i + 2) % 3); else if (op == 4) w.write(i); else w.reshape(i, {6});
    }
    w.finish();
}
// every shape of a grid: construct, wrap, reshape to every other shape, copy both ways
SCENARIO(shape_grid, 2) {
    auto shape = [&] { int r = c.range(0, 4); Sh s(r); for (auto& d : s) d = c.pick(std::vector<int>{1, 2, 0, 3, -1, -2}); return s; };
    Sh a = shape();
    World w(c, 2);
    bool wr = c.flip();
    if (wr) w.wrap(0, a); else w.make(0, a);
    w.make(1, a); 
    w.copy_to(0, 1); w.write(0); w.copy_to(1, 0);
    // all factorizations of the element count, the reverse, and every sign change of it
    static const std::vector<Sh> T = {{}, {0}, {1}, {1, 1}, {2}, {1, 2}, {3}, {4}, {2, 2}, {6}, {2, 3}, {3, 2}, {8}, {2, 4}, {9}, {3, 3}, {12}, {3, 4}, {2, 2, 3}, {-1}, {-2, -1}, {-2, -3}, {-1, -1}, {-1, -4}, {0, -1}, {-1, 0}, {1, -1, -1}, {3, 1, 1, 1, 4}, {5}, {27}, {16}, {81}};
    w.reshape(0, c.pick(T)); w.write(0); w.copy_to(0, 1);
    w.finish();
}
// long dimensions, ranks up to 10
SCENARIO(big_shapes, 1) {
    static const std::vector<Sh> S = {{1000}, {33, 65}, {7, 1, 13}, {2, 3, 5, 7}, {1, 2, 3, 4, 5}, {2, 1, 3, 1, 2, 1}, {257, 129}, {1, 1, 1, 1, 1, 1, 1}, {100000}, {1050001}, {2, 3, 1, 2, 2, 3, 2}, {2, 1, 3, 2, 1, 2, 2, 2}, {1, 2, 1, 2, 1, 2, 1, 2, 3}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {300, 2, 2}, {2, 1030}};
    int k = c.choose((int)S.size()); World w(c, 3);
    bool wr = c.flip();
    if (wr) w.wrap(0, S[k]); else w.make(0, S[k]);
    w.copy(1, 0); w.make(2, S[k]); w.copy_to(0, 2); Sh rev(S[k].rbegin(), S[k].rend()); w.reshape(1, rev); w.copy_to(2, 0); w.reshape(2, rev); w.write(2); w.copy_to(2, 0); w.alloc(1, S[k]); w.copy_to(2, 0); w.finish();
}
// element counts beyond 32 bits (memory is never touched, so nothing is allocated)
SCENARIO(huge_counts, 1) {
    static const std::vector<Sh> S = {{65536, 32768}, {65536, 65536}, {46341, 46341}, {2, 1073741824}, {4, 1073741824}, {2147483647, 2}, {65536, 65536, 2}, {1024, 1024, 1024, 8}, {2147483647}};
    Sh s = c.pick(S); float x[1];
    dw::Tensor t(s, x); size_t n = 1; for (int d : s) n *= size_t(d);
    c.tell("Tensor(", sstr(s), ",user)"); c.state(vp::hash_str(sstr(s))); c.step();
    c.check(t.total() == n, "total " + std::to_string(t.total()) + " expected " + std::to_string(n));
    c.check(!t.empty(), "empty"); c.check(t.data() == x, "data");
    size_t st = 1; for (size_t k = s.size(); k-- > 0;) { if (t.strides()[k] != st) c.fail("stride " + std::to_string(k)); st *= size_t(s[k]); }
    Sh r(s.rbegin(), s.rend()); t.reshape(r); c.check(t.total() == n && t.shape() == r && t.data() == x, "reshape");
    // same product modulo 2^32 is a different element count
    if (n > 4294967295ull) { int low = int(n & 0xffffffff); if (low >= 0) { c.check(throws([&] { t.reshape({low}); }), "reshape to a different element count accepted"); c.check(t.shape() == r && t.total() == n, "failed reshape changed the tensor"); } }
}
// every word of one or two operations, repeated many hundred times on the same handles
SCENARIO(repeated, 2) {
    World w(c, 2); w.make(0, {2, 3}); w.make(1, {2, 3}); int N = c.thorough() ? 1100 : 300, L = c.range(1, 2), ops[2]; for (int i = 0; i < L; ++i) ops[i] = c.choose(14); bool told = c.m_tell; c.tell("repeated ", N, " times");
    for (int k = 0; k < N; ++k) { c.m_tell = told && k == 0; for (int j = 0; j < L; ++j) { int o = ops[j], i = o % 2;
        switch (o / 2) { case 0: w.make(i, k % 2 ? Sh{3, 2} : Sh{2, 3}); break; case 1: if (w.bufs.size() < 40) w.wrap(i, {2, 3}); else w.write(i); break; case 2: w.copy(i, 1 - i); break; case 3: w.alloc(i, k % 3 ? Sh{2, 3} : Sh{5}); break; case 4: if (w.m[i]->total == 6) w.reshape(i, k % 3 == 0 ? Sh{6} : k % 3 == 1 ? Sh{3, 2} : Sh{2, 3}); break; case 5: w.copy_to(i, 1 - i); break; default: w.write(i); } } }
    c.m_tell = told; w.finish();
}
