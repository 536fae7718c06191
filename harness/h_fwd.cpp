// C15: model forward on every graph, output list and topological order.
#include "dag.hpp"
#include "zoo.hpp"
using namespace dag;
static bool exactk(const G& g) { for (auto& o : g.ops) if (o.kind == SIGMOID) return false; return true; }
static void forward(vp::Ctx& c, const G& g, const Weights& w, dw::Model& m, uint64_t salt, Pool* pool = nullptr) {
    auto in = inputs(g, salt); auto v = eval(g, w, in); std::vector<dw::Tensor> ti, to; for (int i : g.ins) ti.push_back(tens(pool, "in", ti.size(), in[i])); std::vector<float*> at; for (size_t i = 0; i < g.outs.size(); ++i) { to.push_back(tens(pool, "out", i, Vec(N * F, NAN))); at.push_back(to.back().data()); }
    if (g.ins.size() == 1 && g.outs.size() == 1 && salt % 2) m.forward(ti[0], to[0]); else m.forward(ti, to); c.step();
    double t = exactk(g) ? 0 : 1e-5;
    for (size_t i = 0; i < g.outs.size(); ++i) { c.check(to[i].data() == at[i], "the output tensor was replaced"); expect_vec(c, "output " + std::to_string(i) + " (v" + std::to_string(g.outs[i]) + ")", vals(to[i]), v[g.outs[i]], t, t); }
    for (size_t i = 0; i < g.ins.size(); ++i) expect_same(c, "input " + std::to_string(i), vals(ti[i]), in[g.ins[i]]);
}
static void whole(vp::Ctx& c, const G& g, int dev, bool both = true) {
    c.tell(g.str()); c.state(g.hash()); Built b; { Orders o(c, dev, both); b = build(g); }
    c.check(b.m.inputs().size() == g.ins.size() && b.m.outputs().size() == g.outs.size() && int(b.m.layers().size()) == g.nlive(), "number of inputs, outputs or layers");
    for (size_t i = 0; i < g.ins.size(); ++i) c.check(b.m.inputs()[i].m_impl == b.vals[g.ins[i]].m_impl, "inputs()"); for (size_t i = 0; i < g.outs.size(); ++i) c.check(b.m.outputs()[i].m_impl == b.vals[g.outs[i]].m_impl, "outputs()");
    auto w = weights(g);
    { std::vector<dw::Tensor> ti(g.ins.size(), dw::Tensor::zeros({N, F})), to(g.outs.size(), dw::Tensor::zeros({N, F})); c.check(throws([&] { b.m.forward(ti, to); }), "forward before compile did not throw"); c.check(throws([&] { b.m.backward(ti, to, to); }), "backward before compile did not throw"); }
    b.m.compile(); set_weights(b.m, g, w);
    forward(c, g, w, b.m, 3); forward(c, g, w, b.m, 8); auto w2 = weights(g, 77); set_weights(b.m, g, w2); dw::Model other = b.m; forward(c, g, w2, other, 3);
}
static const std::vector<int> K3 = {LINEAR, RELU, ADD};
SCENARIO(k1, 2) { int nin = c.range(1, 2); G g = choose(c, nin, 1, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); whole(c, g, -1); }
SCENARIO(k2_all_orders, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 2, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); whole(c, g, c.thorough() ? -1 : 3); }
SCENARIO(k3_one_input, 4) { G g = choose(c, 1, 3, K3, 1); whole(c, g, c.thorough() ? 3 : 1); }
SCENARIO(k3_two_inputs, 4) { G g = choose(c, 2, 3, K3, 1); whole(c, g, c.thorough() ? 1 : 0); }
SCENARIO(k3_three_inputs, 4) { G g = choose(c, 3, 3, {LINEAR, ADD}, 1); whole(c, g, 0, c.thorough()); }
SCENARIO(k4_one_input, 4) { G g = choose(c, 1, 4, c.thorough() ? K3 : std::vector<int>{LINEAR, ADD}, c.thorough() ? 1 : 0); whole(c, g, 0); }
SCENARIO_THOROUGH(k5_one_input, 4) { G g = choose(c, 1, 5, {LINEAR, ADD}, 0); whole(c, g, 0); }
SCENARIO_THOROUGH(k4_two_inputs, 4) { G g = choose(c, 2, 4, {LINEAR, ADD}, 0); whole(c, g, 0, false); }
// arbitrary input and output lists
static const std::vector<int> KA = {LINEAR, RELU, ADD};
SCENARIO(lists_k0, 2) { int nin = c.range(1, 3); G g = choose_any(c, nin, 0, KA, 3, false); whole(c, g, -1); }
SCENARIO(lists_k1, 3) { int nin = c.range(1, 2); G g = choose_any(c, nin, 1, KA, 3, true); whole(c, g, c.thorough() ? -1 : 1); }
SCENARIO(lists_k2, 4) { int nin = c.range(1, 2); G g = choose_any(c, nin, 2, nin == 1 || c.thorough() ? KA : std::vector<int>{LINEAR, ADD}, nin == 1 || c.thorough() ? 3 : 2, true); whole(c, g, 0); }
SCENARIO(lists_k3, 4) { G g = choose_any(c, 1, 3, c.thorough() ? KA : std::vector<int>{LINEAR, ADD}, c.thorough() ? 2 : 1, true); whole(c, g, 0); }
// deep and wide graphs
SCENARIO(deep, 1) { int n = c.range(5, 40), kind = c.choose(3); G g; g.nin = 1; for (int i = 0; i < n; ++i) g.ops.push_back(kind == 0 ? Op{i % 2 ? RELU : LINEAR, i, 0} : kind == 1 ? Op{i % 5 == 4 ? LEAKY : ADD, i, i % 7 == 6 ? 0 : std::max(0, i - 1)} : Op{i + 1 == n ? ADD : RELU, i % 3 ? i : 0, i}); g.ins = {0}; std::vector<bool> u(n + 1); for (auto& o : g.ops) { u[o.a] = true; if (o.kind == ADD) u[o.b] = true; } for (int v = 1; v <= n; ++v) if (!u[v] || v % 11 == 0) g.outs.push_back(v); g.names.resize(n); for (int i = 0; i < n; ++i) g.names[i] = "op" + std::to_string(i);
    // keep magnitudes exact: only check while they stay below 2^24
    auto w = weights(g); for (auto& x : w.W) for (size_t e = 0; e < x.size(); ++e) x[e] = e % 4 == 0 ? (e % 8 ? 1.f : -1.f) : 0.f; for (auto s : {3, 8}) for (auto& v : eval(g, w, inputs(g, s))) for (float x : v) if (std::fabs(x) > 1e6) throw vp::Skip{};
    c.tell(g.str()); c.state(g.hash()); Built b; { Orders o(c, 0); b = build(g); } b.m.compile(); set_weights(b.m, g, w); forward(c, g, w, b.m, 3); forward(c, g, w, b.m, 8); }
// tensors of other sizes; passes repeated many times
static std::vector<G> sized() { std::vector<G> gs; G g; g.nin = 1; g.ins = {0}; g.ops = {{LINEAR, 0, 0}, {RELU, 1, 0}, {ADD, 1, 2}, {LINEAR, 3, 0}}; g.outs = {4}; g.names = {"a", "r", "s", "b"}; gs.push_back(g); g.outs = {3, 4, 2}; gs.push_back(g); g.nin = 2; g.ops = {{ADD, 0, 1}, {LINEAR, 2, 0}, {LEAKY, 2, 0}, {ADD, 3, 4}, {ADD, 5, 2}}; g.ins = {1, 0}; g.outs = {6}; g.names = {"s", "a", "l", "t", "u"}; gs.push_back(g); return gs; }
static const std::vector<std::array<int, 2>> NF = {{1, 1}, {40, 70}, {2, 300}, {520, 2}, {1030, 1}, {3, 257}, {1, 520}, {130, 33}};
SCENARIO(sizes, 2) { int gi = c.choose(3); auto q = c.pick(NF); Size s(q[0], q[1]); G g = sized()[gi]; c.tell(q[0], "x", q[1], " "); whole(c, g, 0); }
SCENARIO(long_run, 1) { int gi = c.choose(3); G g = sized()[gi]; c.tell(g.str(), " 600 passes"); Built b; { Orders o(c, 0); b = build(g); } b.m.compile(); auto w = weights(g); set_weights(b.m, g, w); Pool kept; for (int i = 0; i < 600; ++i) { if (i % 7 == 3) { w = weights(g, i); set_weights(b.m, g, w); } forward(c, g, w, b.m, i, i % 5 ? &kept : nullptr); c.state(vp::mix(gi, i)); } }
// call histories: forward with different tensors, recompile, backward in between
SCENARIO(calls, 3) {
    static std::vector<G> gs; if (gs.empty()) { G g; g.nin = 2; g.ops = {{LINEAR, 0, 0}, {ADD, 2, 1}, {RELU, 3, 0}, {ADD, 4, 3}}; g.ins = {1, 0}; g.outs = {5, 3}; g.names = {"a", "b", "c", "d"}; gs.push_back(g); g = G(); g.nin = 1; g.ops = {{LINEAR, 0, 0}, {ADD, 1, 1}, {LINEAR, 2, 0}}; g.ins = {0}; g.outs = {1, 3}; g.names = {"a", "b", "c"}; gs.push_back(g); }
    int gi = c.choose(2); const G& g = gs[gi]; Built b; { Orders o(c, 0); b = build(g); } b.m.compile(); auto w = weights(g); set_weights(b.m, g, w); uint64_t st = gi; c.tell(g.str()); dw::Model copy = b.m; Pool kept; Pool* pool = c.flip() ? &kept : nullptr; if (pool) { c.tell("tensors overwritten in place"); ++st; }
    static const char* NM[] = {"forward A", "forward B", "backward", "recompile", "change weights", "forward through a copy"}; int D = c.thorough() ? 6 : 4; bool ran = false;
    for (int d = 0; d < D; ++d) { int op = c.choose(6); c.tell(NM[op]); if (op < 2) { forward(c, g, w, b.m, op * 4 + 2, pool); ran = true; } else if (op == 5) { forward(c, g, w, copy, 6, pool); ran = true; } else if (op == 2) { if (!ran) throw vp::Skip{}; auto in = inputs(g, 2); auto v = eval(g, w, in); std::vector<dw::Tensor> ti, to, tg; for (int i : g.ins) ti.push_back(tens(pool, "in", ti.size(), in[i])); for (int o : g.outs) { to.push_back(tens(pool, "out", to.size(), v[o])); tg.push_back(tens(pool, "go", tg.size(), ints(6, o, 3))); } b.m.backward(ti, to, tg); c.step(); } else if (op == 3) { b.m.compile(); ran = false; } else { w = weights(g, 200 + d); set_weights(b.m, g, w); } st = vp::mix(st, op); c.state(st); }
    forward(c, g, w, b.m, 9, pool);
}
// every layer type inside a model equals running the layers one by one
SCENARIO(zoo_pairs, 2) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); zoo::check_forward(c, n); }
SCENARIO(zoo_triples, 3) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()), d = c.choose((int)z.size()); if (!c.thorough() && (a + b + d) % 3) throw vp::Skip{}; zoo::Net n = zoo::chain({&z[a], &z[b], &z[d]}, false); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); zoo::check_forward(c, n); }
// several layers of one type with equal shapes in one model
SCENARIO(towers, 2) { auto& z = zoo::square(); int a = c.choose((int)z.size()), b = c.choose((int)z.size() + 1) - 1, n = c.range(2, 4); bool res = c.flip(); std::vector<const zoo::Item*> its(n, &z[a]); if (b >= 0) for (int i = 1; i < n; i += 2) its[i] = &z[b]; zoo::Net net = zoo::chain(its, res); if (!net.ok) throw vp::Skip{}; c.tell(net.desc); c.state(vp::hash_str(net.desc)); zoo::check_forward(c, net); }
