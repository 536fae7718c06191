// C32: every truncation and byte corruption, compared with what the image library itself makes of
// the damaged bytes; each followed by a valid read; memory and descriptors must balance.
#include "img.hpp"
static const Bytes& good() { static Bytes b = img::png({3, 2, 2, 8, false, 1, 0}); return b; }
static const Bytes& goodj() { static Bytes b = img::jpg({9, 5, 3, false, 2, 2, 80, 0}); return b; }
static void valid(vp::Ctx& c) { static Image t = img::truth({3, 2, 2, 8, false, 1, 0}); static std::string f = img::put("good.png", good()); img::expect(c, dw::io::ReadImage(f), t); static Image tj = [] { Image t; img::libjpeg(goodj(), t); return t; }(); static std::string fj = img::put("good.jpg", goodj()); img::expect(c, dw::io::ReadImage(fj), tj); }
// verdict: 0 must throw, 1 may throw, 2 must be read
static void attempt(vp::Ctx& c, const std::string& path, int verdict, const Image* im, bool into) {
    auto once = [&] {
        c.step(); bool thrown = false; 
        { dw::Tensor t; if (into) { t = dw::Tensor(im && !im->px.empty() ? Sh{im->h, im->w, im->ch} : Sh{2, 3, 3}); std::fill_n(t.data(), t.total(), 1.f); }
          try { dw::io::ReadImage(path, t); } catch (const std::exception& e) { thrown = true; }
          if (!thrown) { c.check(verdict > 0, "damaged image was accepted"); if (im) img::expect(c, t, *im); } }
        c.check(!(thrown && verdict == 2), "an image the library accepts was rejected");
    };
    once(); img::balanced(c, once); valid(c);
}
static std::vector<img::Png> pngs() { std::vector<img::Png> v; int n = 0; for (auto& k : img::kinds()) for (int i = 0; i < 2; ++i) { v.push_back({5 + n % 3, 3, k.first, k.second, i == 1, 5, 0, n % 3}); ++n; } return v; }
static void png_case(vp::Ctx& c, const Bytes& b, bool into) { Image im; int v = img::libpng(b, im); attempt(c, img::put("d.png", b), v, v ? &im : nullptr, into); }
SCENARIO(png_truncated, 3) { static auto S = pngs(); int i = c.choose((int)S.size()); Bytes b = img::png(S[i]); int at = c.choose((int)b.size()); c.tell(S[i].str(), " cut to ", at, " of ", b.size(), " bytes"); c.state(vp::mix(i, at)); png_case(c, b.substr(0, at), c.flip()); }
SCENARIO(png_corrupted, 3) {
    static auto S = pngs(); int i = c.choose((int)S.size()); if (!c.thorough() && i % 2 && i > 12) throw vp::Skip{}; Bytes b = img::png(S[i]); int at = c.choose((int)b.size()), w = c.choose(c.thorough() ? 10 : 4); unsigned char o = b[at]; static const int X[] = {1, 0x80, 0xff, 0x20, 2, 4, 8, 0x10, 0x40, 0x55}; b[at] = char(o ^ X[w]);
    c.tell(S[i].str(), " byte ", at, " xor ", X[w]); c.state(vp::mix(vp::mix(i, at), w)); png_case(c, b, at % 2);
}
// whole chunks removed, repeated or swapped
SCENARIO(png_chunks, 2) {
    static auto S = pngs(); int i = c.choose((int)S.size()); Bytes b = img::png(S[i]); std::vector<Bytes> ch; size_t o = 8; while (o + 8 <= b.size()) { size_t n = (unsigned char)b[o] << 24 | (unsigned char)b[o + 1] << 16 | (unsigned char)b[o + 2] << 8 | (unsigned char)b[o + 3]; ch.push_back(b.substr(o, n + 12)); o += n + 12; }
    int k = (int)ch.size(), a = c.choose(std::min(k, 12)), w = c.choose(3); if (w == 0) ch.erase(ch.begin() + a); else if (w == 1) ch.insert(ch.begin() + a, ch[a]); else { if (a + 1 >= k) throw vp::Skip{}; std::swap(ch[a], ch[a + 1]); }
    Bytes r = b.substr(0, 8); for (auto& x : ch) r += x; c.tell(S[i].str(), w == 0 ? " without chunk " : w == 1 ? " repeated chunk " : " swapped chunk ", a); c.state(vp::mix(vp::mix(i, a), w)); png_case(c, r, false);
}
static std::vector<img::Jpg> jpgs() { return {{9, 5, 1, false, 1, 1, 80, 0}, {17, 9, 3, false, 2, 2, 80, 0}, {9, 12, 3, true, 2, 1, 70, 0}, {8, 8, 4, false, 1, 1, 50, 1}, {20, 20, 3, false, 1, 1, 30, 1, 1}}; }
static void jpg_case(vp::Ctx& c, const Bytes& b, bool into) { Image im; bool ok = img::libjpeg(b, im); if (im.px.size() > 3000000) throw vp::Skip{}; Image none; attempt(c, img::put("d.jpg", b), ok ? 2 : 0, ok ? &im : &none, into && ok); }
SCENARIO(jpeg_truncated, 3) { static auto S = jpgs(); int i = c.choose((int)S.size()); Bytes b = img::jpg(S[i]); int at = c.choose((int)b.size()); c.tell(S[i].str(), " cut to ", at, " of ", b.size(), " bytes"); c.state(vp::mix(i + 100, at)); jpg_case(c, b.substr(0, at), c.flip()); }
SCENARIO(jpeg_corrupted, 3) { static auto S = jpgs(); int i = c.choose((int)S.size()); Bytes b = img::jpg(S[i]); int at = c.choose((int)b.size()), w = c.choose(c.thorough() ? 10 : 3); static const int X[] = {1, 0x80, 0xff, 0x20, 2, 4, 8, 0x10, 0x40, 0x55}; b[at] = char(b[at] ^ X[w]); c.tell(S[i].str(), " byte ", at, " xor ", X[w]); c.state(vp::mix(vp::mix(i + 100, at), w)); jpg_case(c, b, false); }
// missing, empty, directory, foreign formats and extensions
SCENARIO(foreign, 2) {
    static const std::vector<std::string> E = {"png", "jpg", "jpeg"}; static const std::vector<std::string> U = {"bmp", "PNG", "", "pn", "pngg", "gif", "jpe", "tensor", "xpng", "apng", "mjpg", "xjpeg", "jpg ", "png.x"}; int w = c.choose(8); std::string e = c.pick(E); c.tell("case ", w, " extension ", e); c.state(vp::mix(w, vp::hash_str(e))); std::string p;
    bool isj = e != "png"; Image im;
    switch (w) { case 0: p = img::dir() + "/missing." + e; break; case 1: p = img::dir() + "/nodir/x." + e; break; case 2: p = img::put("empty." + e, ""); break; case 3: p = img::dir() + "/dir." + e; mkdir(p.c_str(), 0755); break; case 4: p = img::put("other." + e, isj ? good() : goodj()); break; case 5: p = img::put("text." + e, "this is not an image at all, but long enough to hold headers"); break; case 6: p = img::put("zeros." + e, Bytes(5000, 0)); break; default: { std::string u = c.pick(U); p = img::put("good2." + u, isj ? goodj() : good()); c.tell("as ", u); } }
    attempt(c, p, 0, nullptr, c.flip());
}
SCENARIO(nodot, 1) { static const std::vector<std::string> N = {"noext", "", ".", "png", "a.png/b", "a.png.bak", "xpng", "xjpg", "xjpeg"}; std::string n = c.pick(N); c.tell("path '", n, "'"); c.state(vp::hash_str(n)); if (!n.empty() && n[0] == 'x') { attempt(c, img::put(n, n == "xpng" ? good() : goodj()), 0, nullptr, false); return; } if (n == "png") { attempt(c, n, 0, nullptr, false); return; } attempt(c, n.empty() ? "" : img::dir() + "/" + n, 0, nullptr, false); }
// sequences of good and bad reads
SCENARIO(sequences, 2) {
    std::vector<std::string> f = {img::put("q0.png", good()), img::put("q1.png", good().substr(0, 60)), img::put("q2.jpg", goodj()), img::put("q3.jpg", goodj().substr(0, 100)), img::dir() + "/missing.png", img::put("q5.png", good().substr(0, 4))}; static Image t0 = img::truth({3, 2, 2, 8, false, 1, 0}); static Image t2 = [] { Image t; img::libjpeg(goodj(), t); return t; }(); uint64_t st = 1; dw::Tensor keep; img::balanced(c, [] {});
    for (int d = 0; d < (c.thorough() ? 6 : 5); ++d) { int k = c.choose(6); c.tell("read ", k); c.step(); bool bad = k != 0 && k != 2; int fd = img::lowest_fd(); if (bad) c.check(throws([&] { dw::io::ReadImage(f[k]); }), "damaged image was accepted"); else img::expect(c, dw::io::ReadImage(f[k]), k ? t2 : t0); c.check(img::lowest_fd() == fd, "a file descriptor was leaked"); st = vp::mix(st, k); c.state(st); }
}
