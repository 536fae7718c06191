// C21: damaged and foreign model files.
#include "serfiles.hpp"
using namespace sf;
static void valid_after(vp::Ctx& c, dw::Model& m, const std::string& p) { File f("v"); dw::save(m, f.p); dw::Model l = dw::load(f.p); cfgcmp::same_model(c, "a model loaded after a rejected file", m, l); cfgcmp::same_state(c, "a model loaded after a rejected file", m, l); (void)p; }
// crash points of the writer: the file ends after any number of bytes
SCENARIO(truncated, 2) {
    int k = c.choose(NM), kind = c.choose(3); dw::Model m = model(k); File f("f"); write(m, kind, f.p); std::string all = slurp(f.p); c.check(!all.empty(), "nothing was saved"); c.check(!load_throws(m, kind, f.p, false), "the whole file was rejected");
    int cut = c.choose((int)all.size(), "cut"); bool stream = c.flip("stream"); if (kind == SAVE && stream) throw vp::Skip{}; c.tell(kn(kind), " of model ", k, " cut to ", cut, " of ", all.size(), stream ? " (stream)" : ""); c.state(vp::mix(vp::mix(k, kind), cut)); spit(f.p, all.substr(0, cut)); c.step();
    c.check(load_throws(m, kind, f.p, stream), std::string(ln(kind)) + " accepted a file cut after " + std::to_string(cut) + " of " + std::to_string(all.size()) + " bytes"); if (cut % 16 == 0) valid_after(c, m, f.p);
}
// a config file is no model, a state file is neither ...
SCENARIO(kinds, 2) {
    int k = c.choose(NM), kind = c.choose(3), fn = c.choose(3); bool stream = c.flip(); if (kind == fn) throw vp::Skip{}; if (kind == SAVE && fn == 1) throw vp::Skip{}; // a model file starts with its config
    if (fn == 0 && stream) throw vp::Skip{}; dw::Model m = model(k); File f("f"); write(m, kind, f.p); c.tell(ln(fn), " on the result of ", kn(kind), " of model ", k); c.state(vp::mix(vp::mix(k, kind), fn)); c.step(); c.check(load_throws(m, fn, f.p, stream), std::string(ln(fn)) + " accepted a file made by " + kn(kind)); valid_after(c, m, f.p);
}
SCENARIO(foreign, 2) {
    static const std::vector<std::string> X = {"", "\n", "x", "{\"layers\": []}", "\x89PNG\r\n\x1a\n0000IHDR", std::string(4096, '\xff'), std::string(300, 'A'), std::string("\x02\0\0\0", 4) + std::string(64, '\0'), std::string("\x7f""ELF\x02\x01\x01", 7) + std::string(100, '\0'), std::string("\0\0\0\x01", 4) + std::string(64, '\0'), std::string("\xff\xff\xff\xff", 4) + std::string(64, '\0'), std::string(1, '\0'), std::string(3, '\0'), std::string("\x01", 1)};
    int k = c.choose(NM), x = c.choose((int)X.size()), fn = c.choose(3); bool stream = c.flip(); if (fn == 0 && stream) throw vp::Skip{}; dw::Model m = model(k); File f("f"); spit(f.p, X[x]); c.tell(ln(fn), " on foreign content ", x); c.state(vp::mix(vp::mix(k, x), fn)); c.step(); c.check(load_throws(m, fn, f.p, stream), std::string(ln(fn)) + " accepted foreign content " + std::to_string(x)); valid_after(c, m, f.p);
}
SCENARIO(unopenable, 2) {
    int k = c.choose(NM), fn = c.choose(3), how = c.choose(6); dw::Model m = model(k); std::string d = scratch("d"); mkdir(d.c_str(), 0755); File f("f"); spit(f.p, "x"); std::string p = how == 0 ? d + "/missing" : how == 1 ? d + "/no/such" : how == 2 ? d : how == 3 ? "" : how == 4 ? f.p + "/x" : d + "/" + std::string(400, 'n');
    c.tell(ln(fn), " on path kind ", how); c.state(vp::mix(vp::mix(k, how), fn)); c.step(); bool t = load_throws(m, fn, p, false), t2 = fn ? load_throws(m, fn, p, true) : true; rmdir(d.c_str()); c.check(t, std::string(ln(fn)) + " of a path that can't be opened did not throw"); c.check(t2, std::string(ln(fn)) + " of a stream that could not be opened did not throw"); valid_after(c, m, f.p);
}
// state files whose entries don't fit the model: every entry, several mismatches
SCENARIO(mismatch, 3) {
    static const std::vector<int> KS = {0, 2, 3, 5, 6}; int k = c.pick(KS); dw::Model m = model(k); std::vector<std::string> keys; for (auto& kv : m.state()) keys.push_back(kv.first); std::sort(keys.begin(), keys.end()); int e = c.choose((int)keys.size()), how = c.choose(8); std::string key = keys[e];
    dw::Model::StateDict s; for (auto& kv : m.state()) s.emplace(kv.first, kv.second); dw::Tensor t = s.at(key); Sh sh = t.shape();
    auto put = [&](const std::string& name, const Sh& shape) { s.erase(key); dw::Tensor q = shape.empty() ? dw::Tensor() : dw::Tensor::zeros(shape); s.emplace(name, q); };
    switch (how) { case 0: put(key + "x", sh); break; case 1: put(key.substr(0, key.size() - 1), sh); break; case 2: { Sh q = sh; q[0] += 1; put(key, q); break; } case 3: { Sh q = sh; q.push_back(1); put(key, q); break; } case 4: { Sh q = sh; std::reverse(q.begin(), q.end()); if (q == sh) throw vp::Skip{}; put(key, q); break; } case 5: s.emplace("extra.weight", dw::Tensor::zeros({1})); break; case 6: { if (sh.size() < 2) throw vp::Skip{}; put(key, Sh{int(t.total())}); break; } default: { Sh q = sh; if (q.back() < 2) throw vp::Skip{}; q.back() -= 1; put(key, q); break; } }
    File f("f"); dw::save_state(s, f.p); bool stream = c.flip(); c.tell("model ", k, " entry ", key, " mismatch ", how); c.state(vp::mix(vp::mix(k, e), how)); c.step(); c.check(load_throws(m, STATE, f.p, stream), "load_state accepted a state with entry '" + key + "' mismatching (" + std::to_string(how) + ")"); valid_after(c, m, f.p);
}
// a state of one model into every other model: accepted only if every entry fits
SCENARIO(cross, 2) {
    int a = c.choose(NM), b = c.choose(NM); dw::Model ma = model(a), mb = model(b); File f("f"); dw::save_state(ma.state(), f.p); bool fit = true; for (auto& kv : ma.state()) { auto it = mb.state().find(kv.first); if (it == mb.state().end() || it->second.shape() != kv.second.shape()) fit = false; } c.tell("state of model ", a, " into model ", b); c.state(a * NM + b); c.step(); c.check(load_throws(mb, STATE, f.p, false) == !fit, fit ? "a fitting state was rejected" : "a state that does not fit was accepted");
    // the whole-model file with the state of another model
    { std::ofstream o(f.p, std::ios::binary); dw::save_cfg(mb.cfg(), o); dw::save_state(ma.state(), o); } c.step(); c.check(load_throws(mb, SAVE, f.p, false) == !fit, fit ? "a fitting model file was rejected" : "a model file whose state does not fit was accepted");
}
// cut files one after another, then valid ones: nothing is left behind
SCENARIO(sequences, 2) {
    dw::Model m = model(3); File f("f"), g("g"); dw::save(m, g.p); std::string all = slurp(g.p); int D = c.thorough() ? 6 : 4; uint64_t st = 0; for (int d = 0; d < D; ++d) { int op = c.choose(6); c.tell(op); if (op == 0) { dw::Model l = dw::load(g.p); cfgcmp::same_model(c, "the loaded model", m, l); cfgcmp::same_state(c, "the loaded model", m, l); } else if (op == 5) c.check(load_throws(m, 0, f.p + ".missing", false), "a missing file was loaded"); else { spit(f.p, all.substr(0, all.size() * op / 5)); c.check(load_throws(m, 0, f.p, false), "a cut file was loaded"); } c.step(); st = vp::mix(st, op); c.state(st); } dw::Model l = dw::load(g.p); cfgcmp::same_state(c, "the model loaded last", m, l);
}
// every dimension of an entry of every rank: larger, smaller, exchanged, dropped, doubled
SCENARIO(shapes, 2) {
    static const std::vector<Sh> S = {{2}, {1}, {2, 3}, {1, 4}, {3, 3}, {2, 3, 4}, {2, 3, 4, 5}, {4, 2, 3, 3}, {2, 2, 2, 2, 2}, {1, 1, 1, 1}}; Sh s = c.pick(S), q = s; int r = s.size(), d = c.choose(r), how = c.choose(8); switch (how) { case 0: q[d] += 1; break; case 1: q[d] -= 1; break; case 2: q[d] *= 2; break; case 3: { int e = c.choose(r); std::swap(q[d], q[e]); break; } case 4: q.erase(q.begin() + d); break; case 5: q.insert(q.begin() + d, 1); break; case 6: { int e = c.choose(r); q[d] *= s[e]; if (e != d) q[e] = 1; else q[d] = s[d] * 3; break; } default: q.push_back(1); } if (q == s) throw vp::Skip{}; int other = c.choose(3); bool stream = c.flip();
    c.tell("entry of shape ", sstr(s), ", file has ", sstr(q), " among ", other, " fitting entries"); c.state(vp::mix(vp::mix(vp::hash_str(sstr(s)), vp::hash_str(sstr(q))), other)); dw::Model::StateDict m, f; auto fill = [](dw::Tensor t, float v) { std::fill_n(t.data(), t.total(), v); return t; };
    for (int i = 0; i < other; ++i) { m.emplace("fit" + std::to_string(i), fill(dw::Tensor(Sh{3, 2}), 1)); f.emplace("fit" + std::to_string(i), fill(dw::Tensor(Sh{3, 2}), 2)); } m.emplace("w", fill(dw::Tensor(s), 1)); f.emplace("w", q.empty() ? dw::Tensor() : dw::Tensor(q)); if (prod(q)) fill(f.at("w"), 2); File x("f"); dw::save_state(f, x.p); c.step(); bool t = throws([&] { if (stream) { std::ifstream i(x.p, std::ios::binary); dw::load_state(m, i); } else dw::load_state(m, x.p); }); c.check(t, "an entry of shape " + sstr(q) + " was loaded into one of shape " + sstr(s)); c.check(m.at("w").shape() == s, "a rejected entry changed the shape"); for (float v : vals(m.at("w"))) c.check(v == 1, "a rejected entry was loaded partly");
}
