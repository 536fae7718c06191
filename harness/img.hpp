// Image files made by the harness (own PNG encoder over zlib; libjpeg for JPEG) and reference
// decoders.
#pragma once
#include "dwh.hpp"
#include <csetjmp>
#include <fcntl.h>
#include <jpeglib.h>
#include <png.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <deepworks/image_reader.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using Bytes = std::string;
struct Image { int w = 0, h = 0, ch = 0; std::vector<int> px; };
namespace img {
inline void be32(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; --i) b += char(v >> (8 * i)); }
inline void chunk(Bytes& o, const char* type, const Bytes& d) { be32(o, d.size()); Bytes t = Bytes(type, 4) + d; o += t; be32(o, crc32(0, (const Bytef*)t.data(), t.size())); }
inline int chans(int ct) { return ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4; }
inline int paeth(int a, int b, int c) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); return pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
struct Png { int w, h, ct, bd; bool inter; int filter; /*0-4, 5 = mixed*/ int pat; int extra = 0; /*1 ancillary chunks, 2 IDAT in many chunks*/ 
    std::string str() const { std::ostringstream o; o << "PNG " << w << "x" << h << " colour type " << ct << " depth " << bd << (inter ? " interlaced" : "") << " filter " << filter << " pattern " << pat << (extra ? extra == 1 ? " ancillary chunks" : " split data" : ""); return o.str(); } };
// raw sample of pixel (x, y), channel k
inline int sample(const Png& p, int x, int y, int k) { int m = (1 << p.bd) - 1; switch (p.pat) { case 0: return int(vp::mix(vp::mix(x + 1, y + 1), k + 3) >> 13) & m; case 1: return (x * 37 + y * 101 + k * 59) * (p.bd == 16 ? 257 + k : 1) & m; case 2: return m; default: return (x + y + k) % 2 ? m : 0; } }
inline int pal(int i, int k) { return (i * 67 + k * 101 + 13) & 255; }
inline Bytes raw_rows(const Png& p, int x0, int dx, int y0, int dy) {
    int pw = (p.w - x0 + dx - 1) / dx, ph = (p.h - y0 + dy - 1) / dy, ch = chans(p.ct); if (pw <= 0 || ph <= 0) return "";
    size_t bpp = std::max(1, ch * p.bd / 8), rb = (size_t(pw) * ch * p.bd + 7) / 8; Bytes out; std::vector<unsigned char> prev(rb, 0), cur(rb);
    for (int r = 0; r < ph; ++r) {
        std::fill(cur.begin(), cur.end(), 0); size_t bit = 0;
        for (int q = 0; q < pw; ++q) for (int k = 0; k < ch; ++k) { int v = sample(p, x0 + q * dx, y0 + r * dy, k); if (p.bd == 16) { cur[bit / 8] = v >> 8; cur[bit / 8 + 1] = v & 255; } else cur[bit / 8] |= v << (8 - p.bd - bit % 8); bit += p.bd; }
        int f = p.filter == 5 ? (r + dx) % 5 : p.filter; out += char(f);
        for (size_t i = 0; i < rb; ++i) { int a = i >= bpp ? cur[i - bpp] : 0, b = prev[i], c = i >= bpp ? prev[i - bpp] : 0, v = cur[i]; out += char(f == 0 ? v : f == 1 ? v - a : f == 2 ? v - b : f == 3 ? v - (a + b) / 2 : v - paeth(a, b, c)); }
        prev = cur;
    }
    return out;
}
inline Bytes png(const Png& p) {
    Bytes o = "\x89PNG\r\n\x1a\n", h; be32(h, p.w); be32(h, p.h); h += char(p.bd); h += char(p.ct); h += char(0); h += char(0); h += char(p.inter ? 1 : 0); chunk(o, "IHDR", h);
    if (p.extra == 1) { Bytes g; be32(g, 45455); chunk(o, "gAMA", g); chunk(o, "tEXt", Bytes("Title\0x", 7)); }
    if (p.ct == 3) { Bytes t; for (int i = 0; i < (1 << p.bd); ++i) for (int k = 0; k < 3; ++k) t += char(pal(i, k)); chunk(o, "PLTE", t); }
    Bytes raw; if (!p.inter) raw = raw_rows(p, 0, 1, 0, 1); else { static const int P[7][4] = {{0, 8, 0, 8}, {4, 8, 0, 8}, {0, 4, 4, 8}, {2, 4, 0, 4}, {0, 2, 2, 4}, {1, 2, 0, 2}, {0, 1, 1, 2}}; for (auto& q : P) raw += raw_rows(p, q[0], q[1], q[2], q[3]); }
    Bytes z(compressBound(raw.size()), 0); uLongf n = z.size(); compress2((Bytef*)&z[0], &n, (const Bytef*)raw.data(), raw.size(), 6); z.resize(n);
    size_t step = p.extra == 2 ? 3 : z.size(); for (size_t i = 0; i < z.size(); i += step) chunk(o, "IDAT", z.substr(i, step)); if (p.extra == 1) chunk(o, "tEXt", Bytes("End\0y", 5)); chunk(o, "IEND", ""); return o;
}
inline Image truth(const Png& p) {
    Image im; im.w = p.w; im.h = p.h; im.ch = p.ct == 3 ? 3 : chans(p.ct);
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int k = 0; k < im.ch; ++k) { int v = sample(p, x, y, p.ct == 3 ? 0 : k); im.px.push_back(p.ct == 3 ? pal(v, k) : p.bd == 16 ? v >> 8 : p.bd == 8 ? v : v * 255 / ((1 << p.bd) - 1)); }
    return im;
}
inline const std::vector<std::pair<int, int>>& kinds() { static std::vector<std::pair<int, int>> k = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}}; return k; }

// libpng straight on the bytes: 0 rows unreadable, 1 rows fine but the rest is not, 2 all fine
inline int libpng(const Bytes& b, Image& im) {
    struct Src { const Bytes& b; size_t at; } src{b, 8}; if (b.size() < 8 || png_sig_cmp((png_const_bytep)b.data(), 0, 8)) return 0;
    static std::vector<png_byte> buf; static std::vector<png_bytep> rows; volatile int stage = 0; im = Image();
    auto p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, [](png_structp q, png_const_charp) { png_longjmp(q, 1); }, [](png_structp, png_const_charp) {}); auto info = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &info, nullptr); return stage; }
    png_set_read_fn(p, &src, [](png_structp q, png_bytep d, size_t n) { auto* s = (Src*)png_get_io_ptr(q); if (s->at + n > s->b.size()) png_error(q, "eof"); memcpy(d, s->b.data() + s->at, n); s->at += n; }); png_set_sig_bytes(p, 8);
    png_read_info(p, info); int ct = png_get_color_type(p, info); if (ct == PNG_COLOR_TYPE_PALETTE) png_set_palette_to_rgb(p); if (ct == PNG_COLOR_TYPE_GRAY) png_set_expand_gray_1_2_4_to_8(p); png_set_strip_16(p); png_read_update_info(p, info);
    im.w = png_get_image_width(p, info); im.h = png_get_image_height(p, info); im.ch = png_get_channels(p, info); size_t rb = png_get_rowbytes(p, info); buf.assign(rb * im.h, 0); rows.resize(im.h); for (int i = 0; i < im.h; ++i) rows[i] = &buf[i * rb];
    png_read_image(p, rows.data()); stage = 1; for (int y = 0; y < im.h; ++y) for (int i = 0; i < im.w * im.ch; ++i) im.px.push_back(rows[y][i]);
    png_read_end(p, info); stage = 2; png_destroy_read_struct(&p, &info, nullptr); return 2;
}

struct Jpg { int w, h, ch; bool prog; int hs, vs; int quality; int pat; int restart = 0; int space = 0; // space 1: CMYK
    std::string str() const { std::ostringstream o; o << "JPEG " << w << "x" << h << " components " << ch << (prog ? " progressive" : "") << " sampling " << hs << "x" << vs << " quality " << quality << " pattern " << pat << (restart ? " restart markers" : ""); return o.str(); } };
inline Bytes jpg(const Jpg& j) {
    jpeg_compress_struct c{}; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char* out = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n);
    c.image_width = j.w; c.image_height = j.h; c.input_components = j.ch; c.in_color_space = j.ch == 1 ? JCS_GRAYSCALE : j.ch == 3 ? JCS_RGB : JCS_CMYK; jpeg_set_defaults(&c); jpeg_set_quality(&c, j.quality, TRUE); if (j.ch == 3) { c.comp_info[0].h_samp_factor = j.hs; c.comp_info[0].v_samp_factor = j.vs; } if (j.prog) jpeg_simple_progression(&c); c.restart_interval = j.restart; c.optimize_coding = j.prog;
    jpeg_start_compress(&c, TRUE); std::vector<JSAMPLE> row(size_t(j.w) * j.ch); while (c.next_scanline < c.image_height) { int y = c.next_scanline; for (int x = 0; x < j.w; ++x) for (int k = 0; k < j.ch; ++k) row[x * j.ch + k] = j.pat == 0 ? int(vp::mix(vp::mix(x + 1, y + 1), k + 5) >> 17) & 255 : j.pat == 1 ? (x * 9 + y * 17 + k * 80) & 255 : (x / 3 + y / 2 + k) % 2 * 255; JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c); Bytes b((char*)out, n); jpeg_destroy_compress(&c); free(out); return b;
}
struct JErr { jpeg_error_mgr e; jmp_buf j; };
inline bool libjpeg(const Bytes& b, Image& im) {
    static std::vector<JSAMPLE> row; im = Image(); if (b.empty()) return false; jpeg_decompress_struct c{}; JErr er{}; c.err = jpeg_std_error(&er.e); er.e.error_exit = [](j_common_ptr p) { longjmp(((JErr*)p->err)->j, 1); }; er.e.emit_message = [](j_common_ptr, int) {};
    if (setjmp(er.j)) { jpeg_destroy_decompress(&c); return false; }
    // stdio source, so that end-of-file is handled as for a file
    FILE* volatile f = fmemopen((void*)b.data(), b.size(), "rb"); jpeg_create_decompress(&c);
    struct Close { FILE* volatile& f; ~Close() { if (f) fclose(f); } }; 
    if (setjmp(er.j)) { jpeg_destroy_decompress(&c); fclose(f); return false; }
    jpeg_stdio_src(&c, f); jpeg_read_header(&c, TRUE); jpeg_start_decompress(&c); im.w = c.output_width; im.h = c.output_height; im.ch = c.output_components; row.resize(size_t(im.w) * im.ch);
    while (c.output_scanline < c.output_height) { JSAMPROW r = row.data(); jpeg_read_scanlines(&c, &r, 1); im.px.insert(im.px.end(), row.begin(), row.end()); }
    jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); fclose(f); return true;
}

inline std::string dir() { static std::string d; if (d.empty()) { d = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/img" + std::to_string(getpid()); mkdir(d.c_str(), 0755); } return d; }
inline std::string put(const std::string& name, const Bytes& b) { std::string p = dir() + "/" + name; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) abort(); o += k; } close(fd); return p; }
inline int lowest_fd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
inline void expect(vp::Ctx& c, const dw::Tensor& t, const Image& im, bool shape = true) {
    if (shape) c.check(t.shape() == Sh{im.h, im.w, im.ch}, "shape " + sstr(t.shape()) + ", expected " + sstr({im.h, im.w, im.ch})); c.check(t.total() == im.px.size(), "element count");
    for (size_t i = 0; i < im.px.size(); ++i) if (t.data()[i] != float(im.px[i])) c.fail("pixel element " + std::to_string(i) + " = " + fstr(t.data()[i]) + ", expected " + std::to_string(im.px[i]));
}
// memory and descriptors balance over f
template <typename F> void balanced(vp::Ctx& c, F f) { int fd = lowest_fd(); size_t m = __sanitizer_get_current_allocated_bytes(); f(); size_t m2 = __sanitizer_get_current_allocated_bytes(); c.check(lowest_fd() == fd, "a file descriptor was leaked"); c.check(m2 <= m, "memory leaked: " + std::to_string(m2 - m) + " bytes"); }
// state: 0 returned tensor, 1 empty argument, 2 right shape, 3 right count other shape, 4 too large, 5 too small
inline void read_all(vp::Ctx& c, const std::string& path, const Image& im) {
    auto once = [&](int st) {
        c.step(); size_t n = im.px.size();
        if (st == 0) { expect(c, dw::io::ReadImage(path), im); return; }
        dw::Tensor t; if (st > 1) { t = dw::Tensor(st == 2 ? Sh{im.h, im.w, im.ch} : st == 3 ? Sh{int(n)} : st == 4 ? Sh{int(n) + 1} : Sh{im.h, im.w, im.ch, 2}); std::fill_n(t.data(), t.total(), -7.5f); }
        auto d = t.empty() ? nullptr : t.data(); Sh s = t.shape();
        if (st < 4) { dw::io::ReadImage(path, t); expect(c, t, im, st < 3); if (st > 1) c.check(t.data() == d && t.shape() == s, "a tensor of matching size was not filled in place"); }
        else { c.check(throws([&] { dw::io::ReadImage(path, t); }), "an image was read into a tensor of another size"); c.check(t.data() == d && t.shape() == s, "rejected tensor was changed"); for (float v : vals(t)) c.check(v == -7.5f, "rejected tensor was written"); }
    };
    once(0); for (int s = 0; s < 6; ++s) balanced(c, [&] { once(s); });
}
} // namespace img
