// C20: save/load round trips.
#include "cfgcmp.hpp"
#include <unistd.h>
#include <fstream>
using namespace dag; using namespace cfgcmp;
static std::string scratch(const char* n) { return std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/" + n + std::to_string(getpid()); }
struct File { std::string p; File(const char* n) : p(scratch(n)) {} ~File() { unlink(p.c_str()); } };
static const std::vector<uint32_t> SPECIAL = {0, 0x80000000u, 1, 0x80000001u, 0x007fffffu, 0x00800000u, 0x7f7fffffu, 0xff7fffffu, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00001u, 0x7f800001u, 0x7fffffffu, 0x3f800000u, 0x0a0d1a00u, 0x00000a0du, 0xffffffffu};
static void special(dw::Model& m, int rot) { for (auto& kv : m.state()) { auto t = kv.second; uint32_t* p = reinterpret_cast<uint32_t*>(t.data()); for (size_t i = 0; i < t.total(); ++i) p[i] = SPECIAL[(i + rot) % SPECIAL.size()]; } }
static std::map<std::string, Vec> snap(dw::Model& m) { std::map<std::string, Vec> r; for (auto& kv : m.state()) r[kv.first] = vals(kv.second); return r; }
static void state_is(vp::Ctx& c, const std::string& w, dw::Model& m, const std::map<std::string, Vec>& s) { c.check(m.state().size() == s.size(), w + ": number of state entries"); for (auto& kv : s) { c.check(m.state().count(kv.first), w + ": entry " + kv.first + " is gone"); expect_same(c, w + ": " + kv.first, vals(m.state().at(kv.first)), kv.second); } }
static void garble(dw::Model& m, int how) { for (auto& kv : m.state()) { auto t = kv.second; for (size_t i = 0; i < t.total(); ++i) t.data()[i] = how == 0 ? NAN : how == 1 ? 0.f : float(i) - 7; } }
// one save/modify/load round trip in each of the ways the API offers
static void trip(vp::Ctx& c, dw::Model& m, int way, bool fn) {
    File f("s"), f2("t"); auto s = snap(m); std::string cs = canon(m.cfg()), ms = canon_model(m);
    auto untouched = [&](const char* w) { state_is(c, std::string("the model after ") + w, m, s); c.check(canon(m.cfg()) == cs && canon_model(m) == ms, std::string("architecture of the model after ") + w); };
    if (way == 0) { dw::save(m, f.p); untouched("save"); dw::Model l = dw::load(f.p); c.step(2); same_model(c, "the loaded model", m, l); state_is(c, "the loaded model", l, s); for (auto& kv : l.params()) c.check(kv.second.data().data() == l.state().at(kv.first).data(), "views of the loaded model do not share storage"); if (fn) { m.compile(); l.compile(); same_function(c, "the loaded model", m, l); } dw::save(l, f2.p); dw::Model l2 = dw::load(f2.p); c.step(2); same_model(c, "the twice loaded model", m, l2); state_is(c, "the twice loaded model", l2, s); garble(m, 0); state_is(c, "the loaded model", l, s); dw::load_cfg(f.p); }
    else if (way == 1) { dw::save_cfg(m.cfg(), f.p); dw::save_state(m.state(), f2.p); untouched("save_cfg and save_state"); dw::Model::Config k = dw::load_cfg(f.p); c.check(canon(k) == cs, "loaded config:\n" + canon(k) + "instead of\n" + cs); dw::Model l = dw::Model::Build(k); dw::load_state(l.state(), f2.p); c.step(4); same_model(c, "the model from a loaded config", m, l); state_is(c, "the model with loaded state", l, s); if (fn) { m.compile(); l.compile(); same_function(c, "the model with loaded config and state", m, l); } }
    else if (way == 2) { dw::save_state(m.state(), f.p); c.step(); std::map<std::string, float*> at; for (auto& kv : m.state()) at[kv.first] = kv.second.data(); for (int how = 0; how < 3; ++how) { garble(m, how); dw::load_state(m.state(), f.p); c.step(); state_is(c, "the model after load_state", m, s); for (auto& kv : m.state()) c.check(kv.second.data() == at[kv.first], "load_state replaced the storage of " + kv.first); for (auto& kv : m.params()) expect_same(c, kv.first + " of params() after load_state", vals(kv.second.data()), s.at(kv.first)); } }
    else if (way == 3) { // stream overloads, config and state in one file, in either order
        for (int ord = 0; ord < 2; ++ord) { { std::ofstream o(f.p, std::ios::binary); if (ord == 0) { dw::save_cfg(m.cfg(), o); dw::save_state(m.state(), o); } else { dw::save_state(m.state(), o); dw::save_cfg(m.cfg(), o); } } untouched("saving to a stream"); garble(m, 2); std::ifstream i(f.p, std::ios::binary); dw::Model::Config k; if (ord == 0) { k = dw::load_cfg(i); dw::load_state(m.state(), i); } else { dw::load_state(m.state(), i); k = dw::load_cfg(i); } c.step(4); c.check(canon(k) == cs, "config from a stream"); state_is(c, "the model after load_state from a stream", m, s); } }
    else { // into another instance of the same architecture, then save over an existing longer file
        dw::Model o = dw::Model::Build(m.cfg()); garble(o, 2); dw::save_state(m.state(), f.p); dw::load_state(o.state(), f.p); state_is(c, "another instance after load_state", o, s); { std::ofstream big(f2.p, std::ios::binary); std::string junk(20000, 'x'); big << junk; } dw::save(o, f2.p); dw::Model l = dw::load(f2.p); c.step(4); state_is(c, "a model saved over an existing file", l, s); same_model(c, "a model saved over an existing file", m, l); dw::save_cfg(l.cfg(), f2.p); c.check(canon(dw::load_cfg(f2.p)) == cs, "a config saved over an existing file"); dw::save_state(l.state(), f2.p); garble(l, 0); dw::load_state(l.state(), f2.p); state_is(c, "a state saved over an existing file", l, s); }
}
static const std::vector<int> K3 = {LINEAR, RELU, ADD};
static void unname(vp::Ctx& c, G& g) { if (c.flip("unnamed")) for (auto& n : g.names) n = ""; }
static void graph(vp::Ctx& c, G g, int dev) { c.state(g.hash()); Built b; { Orders o(c, dev); b = build(g); } int way = c.choose(5, "way"); c.tell(g.str(), " way ", way); zoo::randomize(b.m, 11); trip(c, b.m, way, true); }
SCENARIO(k1, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 1, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); unname(c, g); graph(c, g, -1); }
SCENARIO(k2, 4) { int nin = c.range(1, 2); G g = choose(c, nin, 2, {LINEAR, RELU, ADD, LEAKY}, 1, true); if (c.thorough()) unname(c, g); graph(c, g, c.thorough() ? 1 : 0); }
SCENARIO(k3, 4) { int nin = c.range(1, c.thorough() ? 3 : 1); G g = choose(c, nin, 3, c.thorough() ? K3 : std::vector<int>{LINEAR, ADD}, 1); graph(c, g, 0); }
SCENARIO(lists, 4) { int nin = c.range(1, 2), k = c.range(0, c.thorough() ? 2 : 1); G g = choose_any(c, nin, k, K3, 2, true); graph(c, g, 0); }
// every attribute value of every layer type; special floats in every tensor (compared bit by bit)
SCENARIO(attributes, 3) { One o = one(c, c.flip() ? "x" : ""); int way = c.choose(5), sp = c.choose(3); c.tell(o.desc, " way ", way, " values ", sp); c.state(vp::mix(vp::hash_str(o.desc), way * 3 + sp)); dw::Model m(o.in, o.out); if (sp) special(m, sp * 5); else zoo::randomize(m, 4); trip(c, m, way, sp == 0); }
SCENARIO(pairs, 2) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; int way = c.thorough() ? c.choose(5) : (a + b) % 5; c.tell(n.desc, " way ", way); c.state(vp::mix(vp::hash_str(n.desc), way)); dw::Model m(n.in, n.out); zoo::randomize(m, 4); trip(c, m, way, true); }
// every special value alone in every position of the first entries
SCENARIO(special_values, 2) { int k = c.choose((int)SPECIAL.size()), way = c.choose(5); dw::Placeholder in(Sh{2, 3}); auto x = dw::Linear(2, "fc")(in); auto y = dw::BatchNorm1D(0.25f, 0.5f, "bn")(x); dw::Model m(in, y); c.tell("value ", SPECIAL[k], " way ", way); c.state(k * 5 + way); for (auto& kv : m.state()) { auto t = kv.second; uint32_t* p = reinterpret_cast<uint32_t*>(t.data()); for (size_t i = 0; i < t.total(); ++i) p[i] = SPECIAL[k]; } trip(c, m, way, false); }
// names with any bytes, long names, many layers
SCENARIO(names, 2) { static const std::vector<std::string> NM = {"a", "a.b", " ", ".", "a\nb", std::string("a\0b", 3), "\xc3\xa9\xff", "linear0", std::string(15, 'q'), std::string(16, 'q'), std::string(255, 'q'), std::string(256, 'q'), std::string(70000, 'q'), "\r\n", std::string(1, '\x1a')}; int k = c.choose((int)NM.size()), way = c.choose(5); dw::Placeholder in(Sh{2, 3}); auto x = dw::Linear(2, NM[k])(in); auto y = dw::BatchNorm1D(0.25f, 0.5f, "other")(x); dw::Model m(in, y); c.tell("name ", k, " way ", way); c.state(k * 5 + way); zoo::randomize(m, 4); trip(c, m, way, true); }
SCENARIO(sizes, 1) { int n = c.pick(std::vector<int>{1, 5, 20, 60}), w = c.pick(std::vector<int>{1, 17, 300}), way = c.choose(5); if (n * w > 6000) throw vp::Skip{}; dw::Placeholder in(Sh{2, w}); auto x = in; for (int i = 0; i < n; ++i) x = i % 3 == 2 ? dw::BatchNorm1D(0.25f, 0.5f, i % 2 ? "" : "b" + std::to_string(i))(x) : dw::Linear(w, i % 2 ? "" : "l" + std::to_string(i))(x); dw::Model m(in, x); c.tell(n, " layers of width ", w, " way ", way); c.state(vp::mix(n * 1000 + w, way)); zoo::randomize(m, 4); trip(c, m, way, n <= 5); }
// histories: save to one of two files, change the values, load back, in every order
SCENARIO(histories, 3) {
    File f[2] = {File("h0"), File("h1")}; dw::Placeholder in(Sh{2, 3}); auto x = dw::BatchNorm1D(0.25f, 0.5f, "bn")(dw::Linear(2, "fc")(in)); dw::Model m(in, x); zoo::randomize(m, 1); auto cur = snap(m); std::map<std::string, Vec> file[2]; int D = c.thorough() ? 7 : 5; uint64_t st = 0; m.compile(); auto base = canon_model(m);
    static const char* NM[] = {"save_state to 0", "save to 1", "load_state from 0", "load_state from 1 after its config", "change values", "replace the model by load(1)", "training pass"};
    for (int d = 0; d < D; ++d) { int op = c.choose(7); c.tell(NM[op]); if (op == 0) { dw::save_state(m.state(), f[0].p); file[0] = cur; } else if (op == 1) { dw::save(m, f[1].p); file[1] = cur; } else if (op == 2) { if (file[0].empty()) throw vp::Skip{}; dw::load_state(m.state(), f[0].p); cur = file[0]; } else if (op == 3) { if (file[1].empty()) throw vp::Skip{}; std::ifstream i(f[1].p, std::ios::binary); dw::load_cfg(i); dw::load_state(m.state(), i); cur = file[1]; } else if (op == 4) { zoo::randomize(m, 50 + d); cur = snap(m); } else if (op == 5) { if (file[1].empty()) throw vp::Skip{}; m = dw::load(f[1].p); m.compile(); cur = file[1]; } else { dw::Tensor ty(Sh{2, 2}); m.train(true); m.forward(mk({2, 3}, ints(6, d, 4)), ty); cur = snap(m); }
        c.step(); state_is(c, std::string("state after ") + NM[op], m, cur); c.check(canon_model(m) == base, "architecture"); st = vp::mix(st, op); c.state(st); }
}
// configs and states that are values of their own: every field survives, whatever it holds
namespace {
const std::vector<int> INTS = {0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65536, 16777217, 0x7fffffff, -0x7fffffff - 1};
const std::vector<uint32_t> FB = {0, 0x80000000u, 1, 0x00800000u, 0x3dcccccdu, 0x3dccccceu, 0x33d6bf95u, 0x358637bdu, 0x3a83126fu, 0x3f7ffffeu, 0x7f7fffffu, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xc2f6e979u, 0x4b800001u};
using Cfg = dw::Model::Config;
void same_cfg(vp::Ctx& c, const Cfg& a, const Cfg& b) {
    c.check(a.input_ids == b.input_ids, "input ids"); c.check(a.output_ids == b.output_ids, "output ids"); c.check(a.ph_map.size() == b.ph_map.size(), "number of placeholders: " + std::to_string(b.ph_map.size()));
    for (auto& kv : a.ph_map) { auto it = b.ph_map.find(kv.first); c.check(it != b.ph_map.end(), "placeholder " + std::to_string(kv.first) + " is gone"); c.check(it->second.id == kv.second.id && it->second.shape == kv.second.shape, "placeholder " + std::to_string(kv.first) + " has shape " + sstr(it->second.shape)); }
    c.check(a.sorted_ops.size() == b.sorted_ops.size(), "number of layers: " + std::to_string(b.sorted_ops.size()) + " instead of " + std::to_string(a.sorted_ops.size()));
    for (size_t i = 0; i < a.sorted_ops.size(); ++i) { auto &x = a.sorted_ops[i], &y = b.sorted_ops[i]; std::string w = "layer " + std::to_string(i) + ": "; c.check(x.name == y.name, w + "name"); c.check(x.type == y.type, w + "type"); c.check(x.in_ids == y.in_ids, w + "in_ids"); c.check(x.out_ids == y.out_ids, w + "out_ids"); c.check(x.attrs.size() == y.attrs.size(), w + "number of attributes"); for (auto& kv : x.attrs) { auto it = y.attrs.find(kv.first); c.check(it != y.attrs.end(), w + "attribute '" + kv.first + "' is gone"); c.check(attr_str(it->second) == attr_str(kv.second), w + "attribute '" + kv.first + "' = " + attr_str(it->second) + ", saved as " + attr_str(kv.second)); } }
}
void trip_cfg(vp::Ctx& c, const Cfg& k) { File f("k"); { std::ofstream big(f.p, std::ios::binary); big << std::string(50, 'x'); } dw::save_cfg(k, f.p); c.step(2); same_cfg(c, k, dw::load_cfg(f.p)); { std::ofstream o(f.p, std::ios::binary); o << "ab"; dw::save_cfg(k, o); dw::save_cfg(k, o); } std::ifstream i(f.p, std::ios::binary); i.get(); i.get(); for (int r = 0; r < 2; ++r) same_cfg(c, k, dw::load_cfg(i)); c.step(4); }
Cfg base() { Cfg k; k.input_ids = {0}; k.output_ids = {1}; for (int i = 0; i < 2; ++i) k.ph_map.emplace(i, Cfg::PlaceholderInfo{Sh{2, 3}, i}); Cfg::OperationInfo o; o.name = "a"; o.type = "ReLU"; o.in_ids = {0}; o.out_ids = {1}; k.sorted_ops.push_back(o); return k; }
std::vector<std::string> SN() { return {"", "a", "kernel", std::string(255, 'k'), std::string(256, 'k'), std::string("a\0b", 3), "\xff\n", std::string(66000, 'z')}; }
}
SCENARIO(config_attributes, 2) {
    int kind = c.choose(4); Cfg k = base(); auto& at = k.sorted_ops[0].attrs;
    if (kind == 0) { at.emplace("i", dw::Attribute(int(c.pick(INTS)))); at.emplace("f", dw::Attribute(fbits(c.pick(FB)))); }
    else if (kind == 1) { A2 a{c.pick(INTS), c.pick(INTS)}; at.emplace("p", dw::Attribute(a)); }
    else if (kind == 2) { std::array<float, 2> a{fbits(c.pick(FB)), fbits(c.pick(FB))}; at.emplace("q", dw::Attribute(a)); }
    else { static const auto N = SN(); int n = c.pick(std::vector<int>{0, 1, 2, 5, 300}); auto& nm = c.pick(N); for (int i = 0; i < n; ++i) { std::string s = i ? nm + std::to_string(i) : nm; switch (i % 4) { case 0: at.emplace(s, dw::Attribute(int(i))); break; case 1: at.emplace(s, dw::Attribute(i + 0.1f)); break; case 2: at.emplace(s, dw::Attribute(A2{i, -i})); break; default: at.emplace(s, dw::Attribute(std::array<float, 2>{i + 0.3f, 1.f / i})); } } c.tell(n, " attributes "); }
    uint64_t h = kind; for (auto& kv : at) { c.tell(kv.first.substr(0, 20), "=", attr_str(kv.second), " "); h += vp::mix(vp::hash_str(kv.first), vp::hash_str(attr_str(kv.second))); } c.state(h); trip_cfg(c, k);
}
SCENARIO(config_lists, 2) {
    int kind = c.choose(6); Cfg k = base(); auto& op = k.sorted_ops[0]; static const auto N = SN(); uint64_t h = kind;
    if (kind == 0) { int a = c.pick(INTS), b = c.pick(INTS), e = c.pick(INTS); k.input_ids = {a, b, e}; k.output_ids = {e, a}; op.in_ids = {b, e, b}; op.out_ids = {a}; k.ph_map.clear(); for (int i : {a, b, e}) k.ph_map.emplace(i, Cfg::PlaceholderInfo{Sh{i, 2}, i}); h = vp::mix(vp::mix(h, a), vp::mix(b, e)); c.tell("ids ", a, " ", b, " ", e); }
    else if (kind == 1) { int r = c.choose(9), v = c.pick(INTS); Sh s(r, 2); if (r) s[c.choose(r)] = v; k.ph_map.at(1).shape = s; h = vp::mix(h, vp::hash_str(sstr(s))); c.tell("shape ", sstr(s)); }
    else if (kind == 2) { int n = c.pick(std::vector<int>{0, 1, 2, 127, 128, 255, 256, 257, 300, 1000}), p = c.choose(3); k.sorted_ops.clear(); k.ph_map.clear(); for (int i = 0; i <= n; ++i) k.ph_map.emplace(i * 7, Cfg::PlaceholderInfo{Sh{i + 1, 2}, i * 7}); for (int i = 0; i < n; ++i) { Cfg::OperationInfo o; o.name = p == 0 ? "" : "op" + std::to_string(p == 1 ? i : n - i); o.type = i % 2 ? "ReLU" : "Linear"; o.in_ids = {i * 7}; o.out_ids = {i * 7 + 7}; if (i % 3 == 0) o.attrs.emplace("units", dw::Attribute(int(i))); k.sorted_ops.push_back(o); } h = vp::mix(h, n * 3 + p); c.tell(n, " layers"); }
    else if (kind == 3) { int n = c.pick(std::vector<int>{0, 1, 3, 127, 128, 255, 256, 300, 5000}), w = c.choose(4); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back((i * 37) % (n + 1)); (w == 0 ? k.input_ids : w == 1 ? k.output_ids : w == 2 ? op.in_ids : op.out_ids) = v; h = vp::mix(h, n * 4 + w); c.tell(n, " ids in list ", w); }
    else if (kind == 4) { op.name = c.pick(N); op.type = c.pick(N); h = vp::mix(vp::hash_str(op.name), vp::hash_str(op.type)); c.tell("name ", op.name.size(), " type ", op.type.size()); }
    else { static const std::vector<std::vector<int>> L = {{}, {0}, {1, 0}, {0, 0}, {2, 1, 0}, {1, 2, 0}, {3, 1, 2, 0}, {0, 3, 1, 2}}; k.input_ids = c.pick(L); k.output_ids = c.pick(L); op.in_ids = c.pick(L); h = vp::mix(vp::mix(h, k.input_ids.size() * 100 + k.output_ids.size()), op.in_ids.size()); for (auto* v : {&k.input_ids, &k.output_ids, &op.in_ids}) for (int i : *v) h = vp::mix(h, i); for (auto* v : {&k.input_ids, &k.output_ids, &op.in_ids}) { c.tell("["); for (int i : *v) c.tell(i); c.tell("]"); } }
    c.state(h); trip_cfg(c, k);
}
SCENARIO(state_values, 2) {
    static const auto N = SN(); static const std::vector<Sh> S = {{1}, {3}, {2, 3}, {3, 2}, {1, 1, 1}, {2, 3, 4, 5}, {5, 1, 2, 1, 2, 2}, {300}, {257, 3}, {2, 3000}, {70000}}; int n = c.pick(std::vector<int>{0, 1, 2, 3, 255, 256, 300}), s = c.choose((int)S.size()), nm = c.choose((int)N.size()), ld = c.choose(3); if (n > 3 && (s % 3 || nm > 2 || s > 8)) throw vp::Skip{};
    c.tell(n, " entries of shape ", sstr(S[s]), " name kind ", nm, " loaded ", ld); c.state(vp::mix(vp::mix(n, s), nm * 3 + ld)); dw::Model::StateDict a, b; std::map<std::string, std::vector<uint32_t>> want;
    for (int i = 0; i < n; ++i) { std::string k = i ? N[nm] + std::to_string(i) : N[nm]; dw::Tensor t(i % 2 ? S[(s + 1) % S.size()] : S[s]), u(t.shape()); auto* p = reinterpret_cast<uint32_t*>(t.data()); for (size_t j = 0; j < t.total(); ++j) p[j] = j < SPECIAL.size() * 2 ? SPECIAL[(j + i) % SPECIAL.size()] : uint32_t(vp::mix(i, j)); want[k].assign(p, p + t.total()); std::fill_n(u.data(), u.total(), 5.f); a.emplace(k, t); b.emplace(k, u); }
    if (ld == 2) b.emplace("not in the file", mk({2}, {8, 9}));
    File f("s"); dw::save_state(a, f.p); c.step(); if (ld == 0) dw::load_state(b, f.p); else { std::ifstream i(f.p, std::ios::binary); dw::load_state(b, i); } c.step();
    for (auto& kv : want) for (auto* m : {&a, &b}) { auto& t = m->at(kv.first); c.check(memcmp(t.data(), kv.second.data(), kv.second.size() * 4) == 0 && t.total() == kv.second.size(), "values of entry '" + kv.first.substr(0, 40) + "'" + (m == &a ? " changed by saving" : " after loading")); } if (ld == 2) expect_vec(c, "an entry that is not in the file", vals(b.at("not in the file")), Vec{8, 9});
}
