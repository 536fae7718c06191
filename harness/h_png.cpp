// C30
#include "img.hpp"
static void go(vp::Ctx& c, const img::Png& p) { c.tell(p.str()); c.state(vp::hash_str(p.str())); Bytes b = img::png(p); Image t = img::truth(p); auto f = img::put("a.png", b); img::read_all(c, f, t); }
static img::Png pick(vp::Ctx& c) { auto k = c.pick(img::kinds()); img::Png p{}; p.ct = k.first; p.bd = k.second; p.inter = c.flip(); return p; }
SCENARIO(small, 3) { auto p = pick(c); int M = c.thorough() ? 9 : 5; p.w = c.range(1, M); p.h = c.range(1, M); p.filter = c.choose(6); p.pat = c.choose(c.thorough() ? 4 : 2); go(c, p); }
SCENARIO(wide, 3) { auto p = pick(c); p.w = c.range(6, 33); p.h = c.range(1, 3); p.filter = 5; p.pat = c.choose(4); go(c, p); }
SCENARIO(tall, 3) { auto p = pick(c); p.h = c.range(6, 20); p.w = c.range(1, 3); p.filter = 5; p.pat = c.choose(4); go(c, p); }
SCENARIO(larger, 2) { auto p = pick(c); static const std::vector<A2> S = {{100, 70}, {257, 3}, {31, 64}, {300, 220}}; A2 s = c.pick(S); p.w = s[0]; p.h = s[1]; p.filter = 5; p.pat = c.choose(2); go(c, p); }
SCENARIO(very_long, 2) { auto p = pick(c); static const std::vector<A2> S = {{1400, 2}, {4097, 1}, {33000, 1}, {70001, 1}, {1, 4100}, {1, 70000}, {1030, 260}, {2, 2100}, {520, 520}}; A2 s = c.pick(S); if (!c.thorough() && p.inter && (s[0] + s[1] > 40000 || s[0] * s[1] > 200000)) throw vp::Skip{}; p.w = s[0]; p.h = s[1]; p.filter = 5; go(c, p); }
SCENARIO(chunks, 2) { auto p = pick(c); p.w = c.pick(std::vector<int>{1, 7, 20}); p.h = c.pick(std::vector<int>{1, 4, 9}); p.filter = 5; p.extra = 1 + c.choose(2); go(c, p); }
// the path may be any view: not terminated, inside a longer string, odd names
SCENARIO(paths, 1) {
    img::Png p{3, 2, 2, 8, false, 1, 0}; auto t = img::truth(p); static const std::vector<std::string> N = {"a.png", "a.b.c.png", ".png", "x y.png", "jpg.png", "a.jpg.png", "d.dir/a.png", "a.jpeg.d/b.png"}; std::string n = c.pick(N); int tail = c.choose(4); c.tell("path ", n, " followed by ", tail); c.state(vp::mix(vp::hash_str(n), tail));
    mkdir((img::dir() + "/d.dir").c_str(), 0755); mkdir((img::dir() + "/a.jpeg.d").c_str(), 0755); auto f = img::put(n, img::png(p)); static const char* T[] = {"", "x", ".jpg", "/../z"}; std::string l = f + T[tail]; std::string_view v(l.data(), f.size()); c.step(2);
    img::expect(c, dw::io::ReadImage(v), t); std::vector<char> raw(f.begin(), f.end()); img::expect(c, dw::io::ReadImage(std::string_view(raw.data(), raw.size())), t); // no terminator at all
    dw::Tensor u; dw::io::ReadImage(v, u); img::expect(c, u, t);
}
// sequences of reads: earlier images leave no trace
SCENARIO(sequences, 2) { static const std::vector<img::Png> S = {{5, 3, 0, 1, false, 0, 0}, {4, 4, 2, 8, true, 5, 0}, {3, 3, 3, 4, false, 0, 0}, {2, 6, 6, 16, false, 4, 0}, {4, 4, 2, 8, false, 3, 1}}; uint64_t st = 1; dw::Tensor shared({4, 4, 3}); for (int d = 0; d < (c.thorough() ? 6 : 4); ++d) { int k = c.choose(5); auto& p = S[k]; c.tell(p.str()); auto f = img::put("s.png", img::png(p)); auto t = img::truth(p); c.step(2); img::expect(c, dw::io::ReadImage(f), t); bool fits = t.px.size() == 48; if (fits) { dw::io::ReadImage(f, shared); img::expect(c, shared, t, false); } else { Vec o = vals(shared); c.check(throws([&] { dw::io::ReadImage(f, shared); }), "size mismatch accepted"); expect_same(c, "rejected tensor", vals(shared), o); } st = vp::mix(st, k); c.state(st); } }
