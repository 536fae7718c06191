// C31
#include "img.hpp"
static void go(vp::Ctx& c, const img::Jpg& j, const char* name) { c.tell(j.str(), " ", name); c.state(vp::hash_str(j.str() + name)); Bytes b = img::jpg(j); Image t; c.check(img::libjpeg(b, t) && t.w == j.w && t.h == j.h, "harness: reference decode"); img::read_all(c, img::put(name, b), t); }
static img::Jpg pick(vp::Ctx& c) { img::Jpg j{}; int k = c.choose(7); j.ch = k == 0 ? 1 : k == 6 ? 4 : 3; static const int SF[][2] = {{1, 1}, {1, 1}, {2, 1}, {2, 2}, {1, 2}, {4, 1}, {1, 1}}; j.hs = SF[k][0]; j.vs = SF[k][1]; j.prog = c.flip(); j.quality = 90; return j; }
SCENARIO(small, 3) { auto j = pick(c); int M = c.thorough() ? 20 : 11; j.w = c.range(1, M); j.h = c.range(1, M); j.pat = c.choose(2); go(c, j, "a.jpg"); }
SCENARIO(blocks, 3) { auto j = pick(c); static const std::vector<int> S = {1, 7, 8, 9, 15, 16, 17, 31, 33}; j.w = c.pick(S); j.h = c.pick(S); j.pat = c.choose(3); go(c, j, "a.jpeg"); }
SCENARIO(quality, 3) { auto j = pick(c); j.quality = c.pick(std::vector<int>{1, 25, 75, 100}); j.restart = c.choose(3); j.w = c.pick(std::vector<int>{5, 16, 40}); j.h = c.pick(std::vector<int>{3, 24}); j.pat = c.choose(2); go(c, j, c.flip() ? "b.x.jpg" : "b.jpeg"); }
SCENARIO(larger, 2) { auto j = pick(c); static const std::vector<A2> S = {{100, 70}, {257, 3}, {31, 64}, {300, 220}}; A2 s = c.pick(S); j.w = s[0]; j.h = s[1]; j.pat = c.choose(2); go(c, j, "l.jpg"); }
SCENARIO(very_long, 2) { auto j = pick(c); static const std::vector<A2> S = {{1400, 2}, {4097, 1}, {33000, 1}, {65500, 1}, {1, 4100}, {1, 65500}, {1030, 260}, {3, 2100}}; A2 s = c.pick(S); j.w = s[0]; j.h = s[1]; go(c, j, "v.jpg"); }
SCENARIO(paths, 1) { img::Jpg j{9, 5, 3, false, 2, 2, 80, 0}; static const std::vector<std::string> N = {"a.jpg", "a.jpeg", ".jpg", "a.png.jpg", "d.png/a.jpeg", "x y.jpg"}; std::string n = c.pick(N); int tail = c.choose(3); c.tell("path ", n, " tail ", tail); c.state(vp::mix(vp::hash_str(n), tail)); mkdir((img::dir() + "/d.png").c_str(), 0755); Bytes b = img::jpg(j); Image t; img::libjpeg(b, t); auto f = img::put(n, b); static const char* T[] = {"", "x", ".png"}; std::string l = f + T[tail]; c.step(2); img::expect(c, dw::io::ReadImage(std::string_view(l.data(), f.size())), t); std::vector<char> raw(f.begin(), f.end()); img::expect(c, dw::io::ReadImage(std::string_view(raw.data(), raw.size())), t); }
SCENARIO(sequences, 2) { static const std::vector<img::Jpg> S = {{5, 3, 1, false, 1, 1, 80, 0}, {4, 4, 3, true, 2, 2, 90, 0}, {17, 9, 3, false, 2, 1, 60, 1}, {4, 4, 3, false, 1, 1, 100, 1}, {3, 4, 4, false, 1, 1, 90, 0}}; uint64_t st = 1; dw::Tensor shared({4, 4, 3}); for (int d = 0; d < (c.thorough() ? 6 : 4); ++d) { int k = c.choose(5); auto& j = S[k]; c.tell(j.str()); Bytes b = img::jpg(j); Image t; img::libjpeg(b, t); auto f = img::put("s.jpg", b); c.step(2); img::expect(c, dw::io::ReadImage(f), t); if (t.px.size() == 48) { dw::io::ReadImage(f, shared); img::expect(c, shared, t, false); } else { Vec o = vals(shared); c.check(throws([&] { dw::io::ReadImage(f, shared); }), "size mismatch accepted"); expect_same(c, "rejected tensor", vals(shared), o); } st = vp::mix(st, k); c.state(st); } }
