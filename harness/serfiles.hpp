#pragma once
#include "cfgcmp.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
namespace sf {
inline std::string scratch(const char* n) { return std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/" + n + std::to_string(getpid()); }
struct File { std::string p; File(const char* n) : p(scratch(n)) {} ~File() { unlink(p.c_str()); } };
inline std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
inline void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { fprintf(stderr, "scratch file %s\n", p.c_str()); abort(); } }
const int NM = 7;
inline dw::Model model(int k) {
    dw::Placeholder in(Sh{2, 3}), in4(Sh{1, 2, 4, 3}); dw::Model m;
    switch (k) {
    case 0: m = dw::Model(in, dw::Linear(2, "fc")(in)); break;
    case 1: m = dw::Model(in, dw::ReLU("r")(in)); break; // no state at all
    case 2: m = dw::Model(in, dw::BatchNorm1D(0.25f, 0.5f, "")(dw::Linear(2, "")(in))); break;
    case 3: m = dw::Model(in4, dw::MaxPooling({2, 2}, {0, 1}, {2, 1}, "p")(dw::BatchNorm2D(0.25f, 0.5f, "bn")(dw::Convolution(2, {3, 2}, {1, 0}, {1, 2}, "conv")(in4)))); break;
    case 4: { dw::Placeholder b(Sh{2, 3}); auto x = dw::LeakyReLU(0.25f, "l")(in); auto y = dw::Add("a")(x, b); m = dw::Model(dw::Placeholders{b, in}, dw::Placeholders{dw::ELU(2.f, "e")(y), x}); break; }
    case 5: m = dw::Model(in, dw::Softmax("s")(dw::Sigmoid("g")(dw::Dropout(0.25f, "d")(in)))); break;
    default: m = dw::Model(in4, dw::Linear(1, std::string(40, 'n'))(dw::GlobalAvgPooling("g")(in4))); break; }
    zoo::randomize(m, 3 + k); return m;
}
enum Kind { SAVE, CFG, STATE };
inline const char* kn(int k) { static const char* n[] = {"save", "save_cfg", "save_state"}; return n[k]; }
inline void write(dw::Model& m, int kind, const std::string& p) { if (kind == SAVE) dw::save(m, p); else if (kind == CFG) dw::save_cfg(m.cfg(), p); else dw::save_state(m.state(), p); }
// 0 load, 1 load_cfg, 2 load_state into a copy of the architecture; true if it threw
inline bool load_throws(dw::Model& m, int fn, const std::string& p, bool stream) {
    try { if (fn == 0) dw::load(p); else if (fn == 1) { if (stream) { std::ifstream i(p, std::ios::binary); dw::load_cfg(i); } else dw::load_cfg(p); } else { dw::Model o = dw::Model::Build(m.cfg()); if (stream) { std::ifstream i(p, std::ios::binary); dw::load_state(o.state(), i); } else dw::load_state(o.state(), p); } } catch (const std::exception&) { return true; } return false;
}
inline const char* ln(int k) { static const char* n[] = {"load", "load_cfg", "load_state"}; return n[k]; }
}
