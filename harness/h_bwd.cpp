// C16: total gradients through every graph, output list and topological order.
#include "dag.hpp"
#include "zoo.hpp"
using namespace dag;
static bool exactk(const G& g) { for (auto& o : g.ops) if (o.kind == SIGMOID) return false; return true; }
struct Tens { std::vector<dw::Tensor> in, out, go; };
// Runs backward for the given values (after a forward pass on the same inputs) and compares every gradient.
static void backward(vp::Ctx& c, const G& g, const Weights& w, dw::Model& m, uint64_t salt, int gosel, bool poison, bool single, Pool* pool = nullptr, bool copies = false) {
    auto in = inputs(g, salt); auto v = eval(g, w, in); Tens t; std::map<int, Vec> go; std::vector<Vec> gv;
    for (int i : g.ins) t.in.push_back(tens(pool, "in", t.in.size(), in[i])); for (size_t i = 0; i < g.outs.size(); ++i) { t.out.push_back(tens(pool, "out", i, Vec(N * F, NAN))); Vec x = gosel < 0 ? ints(N * F, 900 + salt + i, 3) : gen(N * F, [&](size_t e) { return int(i) == gosel ? double(e % 3 + 1) : 0.0; }); gv.push_back(x); auto& ge = go[g.outs[i]]; ge.resize(N * F); for (int e = 0; e < N * F; ++e) ge[e] += x[e]; t.go.push_back(tens(pool, "go", i, x)); }
    m.forward(t.in, t.out); c.step();
    std::vector<Vec> ov; for (auto& o : t.out) ov.push_back(vals(o));
    if (poison) for (auto& kv : m.params()) setv(kv.second.grad(), Vec(kv.second.grad().total(), salt % 2 ? NAN : 1e6f));
    if (copies) for (auto* ts : {&t.in, &t.out}) for (auto& x : *ts) { dw::Tensor y = mk(x.shape(), vals(x)); setv(x, Vec(x.total(), NAN)); x = y; } // backward gets equal tensors, the ones of the forward pass are overwritten
    if (single && g.ins.size() == 1 && g.outs.size() == 1) m.backward(t.in[0], t.out[0], t.go[0]); else m.backward(t.in, t.out, t.go); c.step();
    auto live = g.live(); auto r = grad(g, w, v, go); double tol = exactk(g) ? 0 : 2e-5;
    for (size_t i = 0; i < g.ops.size(); ++i) if (g.ops[i].kind == LINEAR && live[i]) {
        expect_vec(c, "gradient of " + g.names[i] + ".weight", vals(m.params().at(g.names[i] + ".weight").grad()), r.W[i], tol, tol); expect_vec(c, "gradient of " + g.names[i] + ".bias", vals(m.params().at(g.names[i] + ".bias").grad()), r.b[i], tol, tol);
        expect_same(c, g.names[i] + ".weight", vals(m.params().at(g.names[i] + ".weight").data()), w.W[i]); expect_same(c, g.names[i] + ".bias", vals(m.params().at(g.names[i] + ".bias").data()), w.b[i]); }
    for (size_t i = 0; i < g.ins.size(); ++i) expect_same(c, "input " + std::to_string(i), vals(t.in[i]), in[g.ins[i]]);
    for (size_t i = 0; i < g.outs.size(); ++i) { expect_same(c, "output " + std::to_string(i) + " in backward", vals(t.out[i]), ov[i]); expect_same(c, "grad_output " + std::to_string(i), vals(t.go[i]), gv[i]); }
}
static bool has_linear(const G& g) { auto l = g.live(); for (size_t i = 0; i < l.size(); ++i) if (l[i] && g.ops[i].kind == LINEAR) return true; return false; }
static void whole(vp::Ctx& c, const G& g, int dev, bool both = true) {
    if (!has_linear(g)) throw vp::Skip{};
    c.tell(g.str()); c.state(g.hash()); Built b; { Orders o(c, dev, both); b = build(g); } auto w = weights(g); b.m.compile(); set_weights(b.m, g, w);
    backward(c, g, w, b.m, 3, -1, false, true); backward(c, g, w, b.m, 3, -1, false, false); backward(c, g, w, b.m, 8, -1, true, false, nullptr, true); for (size_t i = 0; i < g.outs.size() && g.outs.size() > 1; ++i) backward(c, g, w, b.m, 4 + i, int(i), true, false);
}
static const std::vector<int> K3 = {LINEAR, RELU, ADD};
SCENARIO(k1, 2) { int nin = c.range(1, 2); G g = choose(c, nin, 1, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); whole(c, g, -1); }
SCENARIO(k2_all_orders, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 2, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); whole(c, g, c.thorough() ? -1 : 2); }
SCENARIO(k3_one_input, 4) { G g = choose(c, 1, 3, K3, 1); whole(c, g, c.thorough() ? 3 : 1); }
SCENARIO(k3_two_inputs, 4) { G g = choose(c, 2, 3, K3, 1); whole(c, g, c.thorough() ? 1 : 0); }
SCENARIO(k4_one_input, 4) { G g = choose(c, 1, 4, c.thorough() ? K3 : std::vector<int>{LINEAR, ADD}, c.thorough() ? 1 : 0); whole(c, g, 0); }
SCENARIO_THOROUGH(k5_one_input, 4) { G g = choose(c, 1, 5, {LINEAR, ADD}, 0); whole(c, g, 0); }
SCENARIO_THOROUGH(k4_two_inputs, 4) { G g = choose(c, 2, 4, {LINEAR, ADD}, 0); whole(c, g, 0, false); }
// arbitrary input and output lists
static const std::vector<int> KA = {LINEAR, RELU, ADD};
SCENARIO(lists_k1, 3) { int nin = c.range(1, 2); G g = choose_any(c, nin, 1, KA, 3, true); whole(c, g, c.thorough() ? -1 : 0); }
SCENARIO(lists_k2, 4) { int nin = c.range(1, 2); G g = choose_any(c, nin, 2, nin == 1 || c.thorough() ? KA : std::vector<int>{LINEAR, ADD}, nin == 1 || c.thorough() ? 3 : 2, true); whole(c, g, 0); }
SCENARIO(lists_k3, 4) { G g = choose_any(c, 1, 3, c.thorough() ? KA : std::vector<int>{LINEAR, ADD}, c.thorough() ? 2 : 1, true); whole(c, g, 0); }
// tensors of other sizes; passes repeated many times
static std::vector<G> sized() { std::vector<G> gs; G g; g.nin = 1; g.ins = {0}; g.ops = {{LINEAR, 0, 0}, {RELU, 1, 0}, {ADD, 1, 2}, {LINEAR, 3, 0}}; g.outs = {4}; g.names = {"a", "r", "s", "b"}; gs.push_back(g); g.outs = {3, 4, 2}; gs.push_back(g); g.nin = 2; g.ops = {{ADD, 0, 1}, {LINEAR, 2, 0}, {LEAKY, 2, 0}, {ADD, 3, 4}, {ADD, 5, 2}}; g.ins = {1, 0}; g.outs = {6}; g.names = {"s", "a", "l", "t", "u"}; gs.push_back(g); return gs; }
static const std::vector<std::array<int, 2>> NF = {{1, 1}, {40, 70}, {2, 300}, {520, 2}, {1030, 1}, {3, 257}, {1, 520}, {130, 33}};
SCENARIO(sizes, 2) { int gi = c.choose(3); auto q = c.pick(NF); Size s(q[0], q[1]); G g = sized()[gi]; c.tell(q[0], "x", q[1], " "); whole(c, g, 0); }
SCENARIO(long_run, 1) { int gi = c.choose(3); G g = sized()[gi]; c.tell(g.str(), " 600 passes"); Built b; { Orders o(c, 0); b = build(g); } b.m.compile(); auto w = weights(g); set_weights(b.m, g, w); Pool kept; for (int i = 0; i < 600; ++i) { if (i % 7 == 3) { w = weights(g, i); set_weights(b.m, g, w); } backward(c, g, w, b.m, i, -1, i % 3 == 1, i % 2, i % 5 ? &kept : nullptr); c.state(vp::mix(gi, i)); } }
// histories of passes on one model
SCENARIO(calls, 3) {
    static std::vector<G> gs; if (gs.empty()) { G g; g.nin = 2; g.ops = {{LINEAR, 0, 0}, {ADD, 2, 1}, {LINEAR, 3, 0}, {ADD, 4, 3}}; g.ins = {1, 0}; g.outs = {5, 3}; g.names = {"a", "b", "c", "d"}; gs.push_back(g); g = G(); g.nin = 1; g.ops = {{LINEAR, 0, 0}, {ADD, 1, 1}, {LINEAR, 2, 0}}; g.ins = {0}; g.outs = {1, 3}; g.names = {"a", "b", "c"}; gs.push_back(g); g = G(); g.nin = 1; g.ops = {{LINEAR, 0, 0}, {LEAKY, 1, 0}, {LINEAR, 2, 0}, {ADD, 3, 1}}; g.ins = {0}; g.outs = {4}; g.names = {"a", "b", "c", "d"}; gs.push_back(g); }
    int gi = c.choose(3); const G& g = gs[gi]; Built b; { Orders o(c, 0); b = build(g); } b.m.compile(); auto w = weights(g); set_weights(b.m, g, w); c.tell(g.str()); uint64_t st = gi; Pool kept; Pool* pool = c.flip() ? &kept : nullptr; if (pool) { c.tell("tensors overwritten in place"); st += 10; }
    static const char* NM[] = {"pass A", "pass B (gradients poisoned)", "forward only", "recompile", "change weights", "freeze all", "unfreeze all"}; int D = c.thorough() ? 6 : 4;
    for (int d = 0; d < D; ++d) { int op = c.choose(7); c.tell(NM[op]);
        if (op == 0) backward(c, g, w, b.m, 3, -1, false, true, pool); else if (op == 1) backward(c, g, w, b.m, 8, 0, true, false, pool);
        else if (op == 2) { auto in = inputs(g, 5); std::vector<dw::Tensor> ti, to; for (int i : g.ins) ti.push_back(tens(pool, "in", ti.size(), in[i])); for (size_t i = 0; i < g.outs.size(); ++i) to.push_back(tens(pool, "out", i, Vec(N * F, NAN))); b.m.forward(ti, to); c.step(); }
        else if (op == 3) b.m.compile(); else if (op == 4) { w = weights(g, 200 + d); set_weights(b.m, g, w); } else b.m.train(op == 6);
        st = vp::mix(st, op); c.state(st); }
    backward(c, g, w, b.m, 9, -1, true, true, pool);
}
// every layer type: gradients through a chain equal driving the layers one by one, last to first
static void zoo_bwd(vp::Ctx& c, zoo::Net& n) {
    for (auto* i : n.its) if (i->type == "Dropout") throw vp::Skip{}; // its mask is not reproducible layer by layer
    c.tell(n.desc); c.state(vp::hash_str(n.desc));
    dw::Model m; { dag::Orders o(c, 0); m = dw::Model(n.in, n.out); } m.compile(); zoo::randomize(m, 5); m.train(true);
    for (int r = 0; r < 2; ++r) {
        Vec x = ints(prod(n.is), 7 + r, 4), go = ints(prod(n.os), 70 + r, 3); dw::Tensor tx = mk(n.is, x), ty = mk(n.os, Vec(prod(n.os), NAN)), tg = mk(n.os, go);
        std::vector<Lay> ls; std::vector<dw::Tensor> v{mk(n.is, x)};
        for (size_t i = 0; i < n.its.size(); ++i) { ls.push_back(n.its[i]->lay(v.back().shape())); Lay& l = ls.back(); std::string pre = "layer" + std::to_string(i) + "."; for (auto& kv : l.info.params()) setv(kv.second.data(), vals(m.state().at(pre + kv.first))); for (auto& kv : l.info.buffers()) setv(kv.second, vals(m.state().at(pre + kv.first))); l.train(true); std::vector<dw::Tensor> in{v.back()}; if (n.its[i]->type == "Add") in.push_back(v.back()); v.push_back(l.forward(in)); }
        m.forward(tx, ty); m.backward(tx, ty, tg); c.step(2);
        // gradients along the chain
        dw::Tensor g = mk(n.os, go); dw::Tensor extra; if (n.residual) extra = mk(n.os, go);
        for (int i = int(n.its.size()) - 1; i >= 0; --i) { bool two = n.its[i]->type == "Add"; std::vector<dw::Tensor> in{v[i]}; dw::Tensor gi = dw::Tensor::zeros(v[i].shape()); if (i + 1 == int(n.its.size()) && n.residual) extra.copyTo(gi); std::vector<dw::Tensor> gis{gi}; if (two) { in.push_back(v[i]); gis.push_back(gi); }
            ls[i].forward(in); ls[i].params_grad(in, g); ls[i].backward(in, v[i + 1], g, gis); std::string pre = "layer" + std::to_string(i) + ".";
            for (auto& kv : ls[i].info.params()) { Vec e = vals(kv.second.grad()); double s = 1; for (float q : e) s = std::max(s, std::fabs(double(q))); expect_vec(c, "gradient of " + pre + kv.first, vals(m.params().at(pre + kv.first).grad()), e, 1e-4, 1e-4 * s); }
            g = gi; }
        expect_same(c, "input", vals(tx), x); expect_same(c, "grad_output", vals(tg), go);
    }
}
// k layers of one type side by side on one input (or one behind the other before the branches), their outputs summed: every layer's gradient equals that of the layer on its own
static void zoo_branches(vp::Ctx& c, const zoo::Item& it, int k, int pat) {
    if (it.type == "Add") throw vp::Skip{}; bool stem = pat & 1, loss = pat & 2; Sh s = it.fits(Sh{2, 2, 5, 4}) ? Sh{2, 2, 5, 4} : Sh{3, 4}; if (it.type == "Linear") s = Sh{3, 4}; c.tell(it.desc, " x", k, stem ? " behind a common layer" : "", loss ? ", separate outputs" : ", summed"); c.state(vp::hash_str(it.desc + std::to_string(k * 4 + pat)));
    dw::Placeholder in(s); dw::Placeholder x = in; if (stem) x = it.apply(in, "layer0"); std::vector<dw::Placeholder> br; for (int i = 0; i < k; ++i) br.push_back(it.apply(x, "layer" + std::to_string(i + 1))); if (br[0].shape() != s) throw vp::Skip{};
    std::vector<dw::Placeholder> outs; if (loss) outs = br; else { dw::Placeholder y = br[0]; for (int i = 1; i < k; ++i) y = dw::Add("sum" + std::to_string(i))(y, br[i]); outs = {y}; }
    dw::Model m; { dag::Orders o(c, 1); m = dw::Model({in}, outs); } m.compile(); zoo::randomize(m, 5); m.train(true);
    auto solo = [&](int i, const dw::Tensor& v) { Lay l = it.lay(s); std::string pre = "layer" + std::to_string(i) + "."; for (auto& kv : l.info.params()) setv(kv.second.data(), vals(m.state().at(pre + kv.first))); for (auto& kv : l.info.buffers()) setv(kv.second, vals(m.state().at(pre + kv.first))); l.train(true); return l; };
    for (int r = 0; r < 2; ++r) {
        Vec xv = ints(prod(s), 7 + r, 4); std::vector<Vec> go; for (size_t i = 0; i < outs.size(); ++i) go.push_back(ints(prod(s), 70 + 3 * r + i, 3)); std::vector<dw::Tensor> tx{mk(s, xv)}, ty, tg; for (auto& q : go) { ty.push_back(mk(s, Vec(prod(s), NAN))); tg.push_back(mk(s, q)); }
        dw::Tensor h = mk(s, xv); std::vector<Lay> ref; for (int i = 0; i <= k; ++i) ref.push_back(solo(i ? i : stem ? 0 : 1, h));
        if (stem) h = ref[0].forward({h});
        m.forward(tx, ty); m.backward(tx, ty, tg); c.step(2);
        dw::Tensor gs = dw::Tensor::zeros(s); Vec sum(prod(s), 0); auto cmp = [&](int i) { std::string pre = "layer" + std::to_string(i) + "."; for (auto& kv : ref[i].info.params()) { Vec e = vals(kv.second.grad()); double sc = 1; for (float q : e) sc = std::max(sc, std::fabs(double(q))); expect_vec(c, "gradient of " + pre + kv.first, vals(m.params().at(pre + kv.first).grad()), e, 1e-4, 1e-4 * sc); } };
        for (int i = 1; i <= k; ++i) { dw::Tensor o = ref[i].forward({h}); Vec ov = vals(o); if (loss) expect_vec(c, "output of layer" + std::to_string(i), vals(ty[i - 1]), ov, 1e-5, 1e-5); for (size_t e = 0; e < sum.size(); ++e) sum[e] += ov[e]; dw::Tensor g = mk(s, go[loss ? i - 1 : 0]); ref[i].params_grad({h}, g); std::vector<dw::Tensor> gi{gs}; ref[i].backward({h}, o, g, gi); cmp(i); }
        if (!loss) expect_vec(c, "output", vals(ty[0]), sum, 1e-5, 1e-5);
        if (stem) { dw::Tensor x0 = mk(s, xv); dw::Tensor o = ref[0].forward({x0}); ref[0].params_grad({x0}, gs); cmp(0); }
    }
}
SCENARIO(zoo_pairs, 2) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; zoo_bwd(c, n); }
SCENARIO(zoo_triples, 3) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()), d = c.choose((int)z.size()); if (!c.thorough() && (a + b + d) % 3) throw vp::Skip{}; zoo::Net n = zoo::chain({&z[a], &z[b], &z[d]}, false); if (!n.ok) throw vp::Skip{}; zoo_bwd(c, n); }
// several layers of one type with equal shapes in one model, in a row and side by side
SCENARIO(towers, 2) { auto& z = zoo::square(); int a = c.choose((int)z.size()), b = c.choose((int)z.size() + 1) - 1, n = c.range(2, 4); bool res = c.flip(); std::vector<const zoo::Item*> its(n, &z[a]); if (b >= 0) for (int i = 1; i < n; i += 2) its[i] = &z[b]; zoo::Net net = zoo::chain(its, res); if (!net.ok) throw vp::Skip{}; zoo_bwd(c, net); }
SCENARIO(branches, 2) { auto& z = zoo::square(); int a = c.choose((int)z.size()), k = c.range(2, 3), pat = c.choose(4); zoo_branches(c, z[a], k, pat); }
