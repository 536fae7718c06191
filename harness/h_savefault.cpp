// C22: failing writes are reported. Write errors are made by limiting the file size of this process
// (every write beyond k bytes fails with EFBIG), by /dev/full and by paths that can't be created.
#include "serfiles.hpp"
#include <csignal>
#include <sys/resource.h>
using namespace sf;
namespace {
struct Limit { rlimit old; Limit(size_t k) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = k; if (setrlimit(RLIMIT_FSIZE, &l)) abort(); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
const char* FN[] = {"save", "save_cfg", "save_state", "save_dot", "save_cfg to a stream", "save_state to a stream"};
// true if it threw
bool run(dw::Model& m, int fn, const std::string& p) {
    try { switch (fn) { case 0: dw::save(m, p); break; case 1: dw::save_cfg(m.cfg(), p); break; case 2: dw::save_state(m.state(), p); break; case 3: dw::save_dot(m.cfg(), p); break; case 4: { std::ofstream o(p, std::ios::binary); dw::save_cfg(m.cfg(), o); break; } default: { std::ofstream o(p, std::ios::binary); dw::save_state(m.state(), o); } } } catch (const std::exception&) { return true; } return false;
}
void complete(vp::Ctx& c, dw::Model& m, int fn, const std::string& p, const std::string& whole) {
    if (fn == 0) { dw::Model l = dw::load(p); cfgcmp::same_model(c, "the saved model", m, l); cfgcmp::same_state(c, "the saved model", m, l); }
    else if (fn == 1 || fn == 4) c.check(cfgcmp::canon(dw::load_cfg(p)) == cfgcmp::canon(m.cfg()), "the saved config is not complete"); else if (fn == 3) c.check(slurp(p) == whole, "the saved graph is not complete");
    else { dw::Model o = dw::Model::Build(m.cfg()); for (auto& kv : o.state()) setv(kv.second, Vec(kv.second.total(), NAN)); dw::load_state(o.state(), p); cfgcmp::same_state(c, "the saved state", m, o); }
}
}
// the disk is full after k bytes, for every k
static dw::Model pick_model(vp::Ctx& c, int k) { if (k < NM) return model(k); dw::Placeholder in(Sh{2, 40}); int w = k == NM ? 60 : 300; dw::Model m(in, dw::Linear(w, "big")(in)); zoo::randomize(m, 2); return m; }
static void full(vp::Ctx& c, int k, int step) {
    int fn = c.choose(6); dw::Model m = pick_model(c, k); File f("f"); c.check(!run(m, fn, f.p), "saving failed without a fault"); std::string whole = slurp(f.p); int n = (int)whole.size(), pts = (n + step - 1) / step + 1; int j = c.choose(pts + 2, "bytes"); int lim = j < pts - 1 ? j * step : j == pts - 1 ? n - 1 : j == pts ? n : n + 1; unlink(f.p.c_str()); bool old = c.flip("existing file"); if (old) spit(f.p, std::string(n + 500, 'o'));
    c.tell(FN[fn], " of model ", k, ", room for ", lim, " of ", n, " bytes", old ? ", over an existing file" : ""); c.state(vp::mix(vp::mix(k, fn), lim)); bool t; { Limit l(lim); t = run(m, fn, f.p); } c.step();
    if (lim < n) c.check(t, std::string(FN[fn]) + " returned normally although only " + std::to_string(lim) + " of " + std::to_string(n) + " bytes could be written"); else { c.check(!t, std::string(FN[fn]) + " failed although everything could be written"); }
    if (!t) complete(c, m, fn, f.p, whole);
    c.check(!run(m, fn, f.p), "saving failed after the fault was gone"); complete(c, m, fn, f.p, whole);
}
SCENARIO(disk_full, 2) { int k = c.choose(NM); full(c, k, 1); }
// larger than the stream buffer: every page-ish boundary, every byte in the thorough tier
SCENARIO(disk_full_large, 2) { int k = NM + c.choose(2); full(c, k, c.thorough() ? (k == NM ? 1 : 17) : (k == NM ? 61 : 997)); }
SCENARIO(uncreatable, 2) {
    int k = c.choose(NM), fn = c.choose(6), how = c.choose(7); dw::Model m = model(k); std::string d = scratch("d"); mkdir(d.c_str(), 0755); File f("f"); spit(f.p, "x"); std::string lnk = d + "/loop"; if (symlink(lnk.c_str(), lnk.c_str())) {} std::string p = how == 0 ? d + "/no/such" : how == 1 ? d : how == 2 ? std::string() : how == 3 ? f.p + "/x" : how == 4 ? d + "/" + std::string(400, 'n') : how == 5 ? lnk : std::string("/dev/full");
    c.tell(FN[fn], " to path kind ", how); c.state(vp::mix(vp::mix(k, fn), how)); bool t = run(m, fn, p); c.step(); unlink(lnk.c_str()); rmdir(d.c_str()); c.check(t, std::string(FN[fn]) + " to a path that can't be " + (how == 6 ? "written" : "created") + " returned normally"); c.check(!run(m, fn, f.p), "saving to a good path failed afterwards"); complete(c, m, fn, f.p, slurp(f.p));
}
// failures and successes in every order on one file
SCENARIO(sequences, 2) {
    dw::Model m = model(3); File f("f"); int fn = c.choose(6); run(m, fn, f.p); std::string whole = slurp(f.p); int D = c.thorough() ? 6 : 4; uint64_t st = fn; for (int d = 0; d < D; ++d) { int op = c.choose(5); c.tell(op); if (op == 0) { zoo::randomize(m, 60 + d); c.check(!run(m, fn, f.p), "saving failed"); complete(c, m, fn, f.p, whole); } else if (op == 4) c.check(run(m, fn, f.p + "/x"), "an uncreatable path was accepted"); else { bool t; { Limit l(whole.size() * (op - 1) / 3); t = run(m, fn, f.p); } c.check(t, "a failed write was not reported"); } c.step(); st = vp::mix(st, op); c.state(st); } c.check(!run(m, fn, f.p), "saving failed"); complete(c, m, fn, f.p, whole);
}
