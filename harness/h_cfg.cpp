// C19: a model rebuilt from its config computes the same function.
#include "cfgcmp.hpp"
using namespace dag; using namespace cfgcmp;
static void copy_state(dw::Model& from, dw::Model& to) { for (auto& kv : from.state()) setv(to.state().at(kv.first), vals(kv.second)); }
static void rebuild(vp::Ctx& c, dw::Model& m, bool orders) {
    m.compile(); { auto& k = m.cfg(); for (size_t i = 0; i < k.input_ids.size(); ++i) c.check(k.ph_map.at(k.input_ids[i]).shape == m.inputs()[i].shape(), "the config gives input " + std::to_string(i) + " another shape"); for (size_t i = 0; i < k.output_ids.size(); ++i) c.check(k.ph_map.at(k.output_ids[i]).shape == m.outputs()[i].shape(), "the config gives output " + std::to_string(i) + " the shape " + sstr(k.ph_map.at(k.output_ids[i]).shape)); }
    dw::Model r; { if (orders) { Orders o(c, 0); r = dw::Model::Build(m.cfg()); } else r = dw::Model::Build(m.cfg()); } c.step(); same_model(c, "the rebuilt model", m, r);
    for (auto& kv : m.state()) for (auto& kr : r.state()) if (kv.second.total()) c.check(kv.second.data() != kr.second.data(), "the rebuilt model shares storage with the original"); 
    r.compile(); copy_state(m, r); same_function(c, "the rebuilt model", m, r);
    dw::Model::Config k2 = r.cfg(); dw::Model r2 = dw::Model::Build(k2); same_model(c, "the model rebuilt twice", m, r2); r2.compile(); copy_state(r, r2); same_function(c, "the model rebuilt twice", m, r2);
}
static void graph(vp::Ctx& c, const G& g, int dev, bool both = true) {
    c.tell(g.str()); c.state(g.hash()); Built b; { Orders o(c, dev, both); b = build(g); } auto w = weights(g); b.m.compile();
    // set_weights needs explicit names; unnamed layers are randomised by entry name instead
    zoo::randomize(b.m, 11); auto& k = b.m.cfg(); c.check(k.input_ids.size() == g.ins.size() && k.output_ids.size() == g.outs.size() && int(k.sorted_ops.size()) == g.nlive() && k.ph_map.size() == g.nlive() + g.ins.size(), "size of the config");
    rebuild(c, b.m, true); (void)w;
}
static const std::vector<int> K3 = {LINEAR, RELU, ADD};
static void unname(vp::Ctx& c, G& g) { if (c.flip("unnamed")) for (auto& n : g.names) n = ""; }
SCENARIO(k1, 2) { int nin = c.range(1, 2); G g = choose(c, nin, 1, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); unname(c, g); graph(c, g, -1); }
SCENARIO(k2, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 2, {LINEAR, RELU, ADD, LEAKY}, 1, true); unname(c, g); graph(c, g, c.thorough() ? -1 : 1); }
SCENARIO(k3_one_input, 4) { G g = choose(c, 1, 3, K3, 1); if (c.thorough()) unname(c, g); else if (g.hash() % 2) for (auto& n : g.names) n = ""; graph(c, g, c.thorough() ? 1 : 0, c.thorough()); }
SCENARIO(k3_two_inputs, 4) { G g = choose(c, 2, 3, {LINEAR, ADD}, 1); graph(c, g, 0, c.thorough()); }
SCENARIO(k3_three_inputs, 4) { G g = choose(c, 3, 3, {LINEAR, ADD}, 1); if (!c.thorough() && g.hash() % 6) throw vp::Skip{}; graph(c, g, 0, c.thorough()); }
SCENARIO(k4_one_input, 4) { G g = choose(c, 1, 4, {LINEAR, ADD}, c.thorough() ? 1 : 0, true); if (!c.thorough() && g.hash() % 3) throw vp::Skip{}; graph(c, g, 0, c.thorough()); }
// arbitrary input and output lists
SCENARIO(lists, 4) { int nin = c.range(1, 2), k = c.range(0, 2); G g = choose_any(c, nin, k, k < 2 || c.thorough() ? K3 : std::vector<int>{LINEAR, ADD}, k < 2 ? 3 : 2, true); if (k < 2) unname(c, g); graph(c, g, 0, c.thorough()); }
// every attribute value of every layer type
SCENARIO(attributes, 3) { One o = one(c, c.flip() ? "x" : ""); c.tell(o.desc); c.state(vp::hash_str(o.desc)); dw::Model m(o.in, o.out); zoo::randomize(m, 4); rebuild(c, m, false); }
SCENARIO(attribute_pairs, 2) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); dw::Model m(n.in, n.out); zoo::randomize(m, 4); rebuild(c, m, false); }
// a config may outlive its model and be copied; unknown layer types are rejected
SCENARIO(config_value, 2) { G g = choose(c, 1, 2, K3, 1); c.tell(g.str()); c.state(g.hash()); dw::Model::Config k; std::string s; { Built b = build(g); k = b.m.cfg(); s = canon(k); } dw::Model r = dw::Model::Build(k); c.step(); c.check(canon(r.cfg()) == s, "config of a model built from a stored config"); dw::Model::Config bad = k; bad.sorted_ops[c.choose((int)bad.sorted_ops.size())].type = "NoSuchLayer"; c.check(throws([&] { dw::Model::Build(bad); }), "an unknown layer type was accepted"); c.check(canon(k) == s, "Build changed the config"); }
// inputs and outputs of different shapes and ranks, listed in every order
SCENARIO(shapes, 3) {
    int n = c.range(1, 4); static const std::vector<Sh> S = {{2, 3}, {2, 5}, {2, 2, 3, 4}, {2, 2, 4, 3}}; std::vector<dw::Placeholder> in, out; for (int i = 0; i < n; ++i) { in.emplace_back(S[i]); switch (c.choose(3)) { case 0: out.push_back(dw::ReLU(c.flip() ? "r" + std::to_string(i) : "")(in[i])); break; case 1: out.push_back(dw::Linear(i + 1, "l" + std::to_string(i))(in[i])); break; default: out.push_back(S[i].size() == 4 ? dw::Convolution(2, {1, 2}, {0, 1}, {1, 1}, "c" + std::to_string(i))(in[i]) : dw::BatchNorm1D(0.25f, 0.5f, "b" + std::to_string(i))(in[i])); } if (n == 4 && !c.thorough() && i > 1) break; }
    auto perm = [&](std::vector<dw::Placeholder> v) { std::vector<dw::Placeholder> r; while (!v.empty()) { int i = c.choose((int)v.size()); r.push_back(v[i]); v.erase(v.begin() + i); } return r; }; auto pi = perm(in), po = perm(out); for (auto& p : pi) c.tell(sstr(p.shape())); c.tell(" -> "); uint64_t h = 0; for (auto& p : pi) h = vp::mix(h, vp::hash_str(sstr(p.shape()))); for (auto& p : po) { c.tell(sstr(p.shape())); h = vp::mix(h, vp::hash_str(sstr(p.shape()))); } c.state(h); dw::Model m(pi, po); zoo::randomize(m, 4); rebuild(c, m, false);
}
