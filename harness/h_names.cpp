// C18: layer names, lookup and shared storage of all views of a model.
#include "zoo.hpp"
#include <map>
#include <set>
using namespace dag;
#define CK(cond, ...) do { if (!(cond)) c.fail(__VA_ARGS__); } while (0)
namespace {
struct LSpec { int kind; std::string name; }; // kind: index into TYPES
const std::vector<std::string> TYPES = {"Linear", "ReLU", "Add", "BatchNorm1D", "Dropout"};
dw::Placeholder apply(int k, const std::string& n, const dw::Placeholder& a, const dw::Placeholder& b) { switch (k) { case 0: return dw::Linear(F, n)(a); case 1: return dw::ReLU(n)(a); case 2: return dw::Add(n)(a, b); case 3: return dw::BatchNorm1D(0.25f, 0.5f, n)(a); default: return dw::Dropout(0.25f, n)(a); } }
const std::vector<std::vector<std::string>> PN = {{"weight", "bias"}, {}, {}, {"gamma", "beta"}, {"mask"}}, BNAMES = {{}, {}, {}, {"running_mean", "running_var"}, {}};
struct NOp { int kind, a, b; std::string name; };
std::string lower(std::string s) { for (auto& x : s) x = char(tolower(x)); return s; }
struct Views { const std::vector<NOp>& ops; std::vector<dw::Placeholder>& vals; };
// Everything that must hold for a model that was built.
void inspect(vp::Ctx& c, dw::Model& m, const std::vector<NOp>& ops, const std::vector<dw::Placeholder>& vals, std::vector<std::string>& final_names) {
    size_t k = ops.size(); CK(m.layers().size() == k, "layers() has " + std::to_string(m.layers().size()) + " entries, expected " + std::to_string(k));
    final_names.assign(k, ""); std::set<std::string> seen; std::vector<bool> found(k);
    for (auto& l : m.layers()) {
        CK(seen.insert(l.name()).second, "two layers are called '" + l.name() + "'"); CK(!l.name().empty(), "a layer has no name"); CK(l.outputs().size() == 1, "a layer has not one output");
        size_t i = 0; while (i < k && vals[1 + i].m_impl != l.outputs()[0].m_impl) ++i; CK(i < k && !found[i], "a layer's output placeholder is wrong"); found[i] = true; final_names[i] = l.name();
        CK(l.type() == TYPES[ops[i].kind], "layer '" + l.name() + "' has type " + l.type() + ", expected " + TYPES[ops[i].kind]); if (!ops[i].name.empty()) CK(l.name() == ops[i].name, "layer given the name '" + ops[i].name + "' is called '" + l.name() + "'");
    }
    std::set<std::string> params, state;
    for (size_t i = 0; i < k; ++i) {
        CK(found[i], "layer " + std::to_string(i) + " is missing"); auto l = m.getLayer(final_names[i]); auto& o = ops[i]; std::string w = "getLayer('" + final_names[i] + "') ";
        CK(l.name() == final_names[i] && l.type() == TYPES[o.kind], w + "returns another layer"); CK(l.outputs().size() == 1 && l.outputs()[0].m_impl == vals[1 + i].m_impl, w + "output placeholder"); size_t ni = o.kind == 2 ? 2 : 1; CK(l.inputs().size() == ni && l.inputs()[0].m_impl == vals[o.a].m_impl && (ni == 1 || l.inputs()[1].m_impl == vals[o.b].m_impl), w + "input placeholders");
        CK(l.params().size() == PN[o.kind].size() && l.buffers().size() == BNAMES[o.kind].size(), w + "number of params or buffers");
        for (auto& p : PN[o.kind]) { CK(l.params().count(p), w + "lacks parameter " + p); std::string key = final_names[i] + "." + p; params.insert(key); state.insert(key); CK(m.params().count(key) && m.state().count(key), "no entry '" + key + "'"); auto q = l.params().at(p); CK(m.params().at(key).data().data() == q.data().data() && m.state().at(key).data() == q.data().data() && m.params().at(key).grad().data() == q.grad().data(), "'" + key + "' has several storages"); CK(m.state().at(key).shape() == q.data().shape() && m.params().at(key).data().shape() == q.data().shape(), "'" + key + "' shapes differ"); }
        for (auto& p : BNAMES[o.kind]) { CK(l.buffers().count(p), w + "lacks buffer " + p); std::string key = final_names[i] + "." + p; state.insert(key); CK(m.state().count(key) && m.state().at(key).data() == l.buffers().at(p).data(), "'" + key + "' has several storages"); }
    }
    CK(m.params().size() == params.size() && m.state().size() == state.size(), "params() or state() has extra entries");
    std::set<const float*> mem; for (auto& kv : m.state()) if (kv.second.total()) CK(mem.insert(kv.second.data()).second, "'" + kv.first + "' shares its storage with another entry");
    for (auto n : {"", "nosuch", "linear", "Linear0", "op", "relu99", " "}) if (!seen.count(n)) { bool t = false; try { m.getLayer(n); } catch (const std::exception&) { t = true; } CK(t, std::string("getLayer('") + n + "') did not throw"); }
    for (auto& n : seen) { std::string q = n + "x"; if (!seen.count(q)) CK(throws([&] { m.getLayer(q); }), "getLayer('" + q + "') did not throw"); q = n.substr(0, n.size() - 1); if (!seen.count(q)) CK(throws([&] { m.getLayer(q); }), "getLayer('" + q + "') did not throw"); }
}
Vec run(dw::Model& m) { dw::Tensor x = mk({N, F}, ints(N * F, 3, 4)); std::vector<dw::Tensor> in{x}, out; for (size_t i = 0; i < m.outputs().size(); ++i) out.push_back(dw::Tensor(m.outputs()[i].shape())); m.forward(in, out); Vec r; for (auto& o : out) { Vec v = vals(o); r.insert(r.end(), v.begin(), v.end()); } return r; }
// writes through one view are seen by every other view and by forward
void write_views(vp::Ctx& c, dw::Model& m, const std::vector<NOp>& ops, const std::vector<std::string>& fn) {
    m.train(false); dw::Model copy = m; // a copied handle is the same model
    for (size_t i = 0; i < ops.size(); ++i) {
        std::vector<std::string> ns = PN[ops[i].kind]; for (auto& b : BNAMES[ops[i].kind]) ns.push_back(b);
        for (auto& n : ns) { bool buf = n.compare(0, 7, "running") == 0; std::string key = fn[i] + "." + n;
            for (int view = 0; view < 5; ++view) {
                if (buf && (view == 0)) continue;
                dw::Tensor t; auto l = m.getLayer(fn[i]); if (view == 0) t = m.params().at(key).data(); else if (view == 1) t = m.state().at(key); else if (view == 2) t = buf ? l.buffers().at(n) : l.params().at(n).data(); else if (view == 3) t = copy.state().at(key); else { for (auto& q : m.layers()) if (q.name() == fn[i]) t = buf ? q.buffers().at(n) : q.params().at(n).data(); }
                Vec v = gen(t.total(), [&](size_t e) { return 0.5 + double((e * 7 + view * 3 + i) % 5) * 0.25; }); Vec before = vals(t); setv(t, v); c.step();
                std::string w = "a write to '" + key + "' through view " + std::to_string(view) + " is not seen by "; if (!buf) CK(same_bits(vals(m.params().at(key).data()), v), w + "params()"); CK(same_bits(vals(m.state().at(key)), v), w + "state()"); CK(same_bits(vals(buf ? m.getLayer(fn[i]).buffers().at(n) : m.getLayer(fn[i]).params().at(n).data()), v), w + "getLayer()"); CK(same_bits(vals(copy.state().at(key)), v), w + "a copied model");
            } } }
}
// forward must use the values seen through state(): evaluated by a plain evaluator in evaluation mode
void forward_uses_state(vp::Ctx& c, dw::Model& m, const std::vector<NOp>& ops, const std::vector<std::string>& fn, const std::vector<int>& outs) {
    Vec x = ints(N * F, 3, 4); std::vector<D> v{dvec(x)};
    for (size_t i = 0; i < ops.size(); ++i) { auto& o = ops[i]; D y = v[o.a]; auto S = [&](const char* n) { return vals(m.state().at(fn[i] + "." + n)); };
        if (o.kind == 0) { Vec W = S("weight"), b = S("bias"); for (int r = 0; r < N; ++r) for (int u = 0; u < F; ++u) { double q = b[u]; for (int k = 0; k < F; ++k) q += v[o.a][r * F + k] * W[u * F + k]; y[r * F + u] = q; } }
        else if (o.kind == 1) for (auto& e : y) e = std::max(e, 0.0); else if (o.kind == 2) for (size_t e = 0; e < y.size(); ++e) y[e] += v[o.b][e];
        else if (o.kind == 3) y = ref::bn({N, F, 1}, v[o.a], {dvec(S("running_mean")), dvec(S("running_var"))}, S("gamma"), S("beta"), 0.25);
        v.push_back(y); }
    D e; for (int o : outs) e.insert(e.end(), v[o].begin(), v[o].end()); double sc = 1; for (double q : e) sc = std::max(sc, std::fabs(q)); m.train(false); expect_vec(c, "forward after writing the state", run(m), e, 1e-5, 1e-5 * sc); c.step();
}
void whole(vp::Ctx& c, const std::vector<NOp>& ops, int dev, bool deep, const std::vector<int>& before = {}) {
    std::vector<dw::Placeholder> vs{dw::Placeholder(Sh{N, F})}; std::vector<bool> used(ops.size() + 1); std::string d; for (size_t i = 0; i < ops.size(); ++i) { auto& o = ops[i]; used[o.a] = true; if (o.kind == 2) used[o.b] = true; vs.push_back(apply(o.kind, o.name, vs[o.a], vs[o.b])); d += "v" + std::to_string(i + 1) + "=" + TYPES[o.kind] + "'" + o.name + "'(v" + std::to_string(o.a) + (o.kind == 2 ? ",v" + std::to_string(o.b) : "") + ") "; }
    if (!used[0]) throw vp::Skip{}; std::vector<int> outs; dw::Placeholders po; for (size_t i = 1; i < vs.size(); ++i) if (!used[i]) { outs.push_back(int(i)); po.push_back(vs[i]); } for (int b : before) d += "after Model(v0,v" + std::to_string(b) + ") "; c.tell(d); c.state(vp::hash_str(d));
    // explicit duplicates must throw; generated names avoid the explicit ones and those generated for other models over the same layers
    bool dup = false; for (size_t i = 0; i < ops.size(); ++i) for (size_t j = 0; j < i; ++j) if (!ops[i].name.empty() && ops[i].name == ops[j].name) dup = true;
    std::vector<dw::Model> first; std::vector<std::vector<std::string>> fnames;
    for (int o : before) if (!dup) { // models over a part of the layers, built earlier
        try { Orders q(c, 0, true); first.emplace_back(dw::Placeholders{vs[0]}, dw::Placeholders{vs[o]}); } catch (const std::exception&) { if (first.empty()) c.fail("distinct names were rejected in a first model"); throw vp::Skip{}; } std::vector<std::string> f; std::set<std::string> uniq; for (auto& l : first.back().layers()) { f.push_back(l.name()); CK(!l.name().empty() && uniq.insert(l.name()).second, "names in the earlier model"); } fnames.push_back(f); c.step();
    }
    if (!first.empty() && vp::hash_str(d) % 4) first.back().train(false); // frozen or in evaluation mode by the time the next model is built
    dw::Model m; bool t = false; std::string what; try { Orders o(c, dev, true); m = dw::Model(dw::Placeholders{vs[0]}, po); } catch (const std::exception& e) { t = true; what = e.what(); } c.step();
    if (dup) { CK(t, "two layers with the same explicit name were accepted"); return; } if (t) { // two earlier models over different layers may have given both the same name, or one that a layer outside them bears
        std::map<std::string, std::set<const void*>> who; for (auto& f : first) for (auto& l : f.layers()) who[l.name()].insert(l.outputs()[0].m_impl.get()); for (size_t i = 0; i < ops.size(); ++i) if (!ops[i].name.empty()) who[ops[i].name].insert(vs[1 + i].m_impl.get()); bool clash = false; for (auto& kv : who) clash = clash || kv.second.size() > 1;
        if (!clash) c.fail("distinct names were rejected: " + what); return; }
    for (size_t i = 0; i < first.size(); ++i) { auto& ls = first[i].layers(); CK(ls.size() == fnames[i].size(), "an earlier model changed its layers"); for (size_t j = 0; j < ls.size(); ++j) { CK(ls[j].name() == fnames[i][j], "building a model renamed a layer of an earlier one"); auto l = first[i].getLayer(fnames[i][j]); CK(l.outputs()[0].m_impl == ls[j].outputs()[0].m_impl, "getLayer of an earlier model"); } }
    std::vector<std::string> fn; inspect(c, m, ops, vs, fn); m.compile(); inspect(c, m, ops, vs, fn);
    for (size_t i = 0; i < ops.size(); ++i) for (auto& kv : m.state()) (void)kv; zoo::randomize(m, 7); forward_uses_state(c, m, ops, fn, outs); if (deep) { write_views(c, m, ops, fn); forward_uses_state(c, m, ops, fn, outs); m.train(true); run(m); if (!m.params().empty()) { for (auto& kv : m.state()) if (kv.first.find("running_mean") != std::string::npos) CK(same_bits(vals(kv.second), vals(m.getLayer(kv.first.substr(0, kv.first.rfind('.'))).buffers().at("running_mean"))), "running statistics of the backend are not those of state()"); } inspect(c, m, ops, vs, fn); }
}
std::vector<NOp> choose_ops(vp::Ctx& c, int k, const std::vector<int>& kinds, const std::vector<std::string>& alpha, bool chain) { std::vector<NOp> v; for (int i = 0; i < k; ++i) { NOp o; o.kind = kinds[c.choose((int)kinds.size(), "kind")]; o.a = chain ? i : c.choose(i + 1, "arg"); o.b = o.kind == 2 ? c.choose(i + 1, "arg") : 0; v.push_back(o); } for (int i = 0; i < k; ++i) v[i].name = alpha[c.choose((int)alpha.size(), "name")]; return v; }
}
// generated names: type in lower case + position, so the alphabet holds such names too
static const std::vector<std::string> ALPHA = {"", "a", "b", "linear0", "linear1", "relu1", "add2", "batchnorm1d0", "dropout1"};
SCENARIO(names_2, 2) { auto v = choose_ops(c, 2, {0, 1, 2, 3, 4}, ALPHA, false); whole(c, v, -1, true); }
SCENARIO(names_3_chain, 4) { auto v = choose_ops(c, 3, {0, 1, 3}, {"", "a", "b", "c", "linear0", "relu1", "linear2"}, true); whole(c, v, 0, c.thorough()); }
SCENARIO(names_3_graph, 4) { auto v = choose_ops(c, 3, {0, 1, 2}, c.thorough() ? std::vector<std::string>{"", "a", "linear0", "relu1", "add2"} : std::vector<std::string>{"", "a", "relu1"}, false); whole(c, v, c.thorough() ? -1 : 1, false); }
SCENARIO_THOROUGH(names_4_chain, 4) { auto v = choose_ops(c, 4, {0, 1}, {"", "a", "b", "linear0", "relu2"}, true); whole(c, v, 0, false); }
// several models over the same layers: names generated for an earlier one are taken
SCENARIO(shared_2, 2) { auto v = choose_ops(c, 2, {0, 1, 2}, {"", "relu1", "linear0"}, false); int a = c.range(1, 2), b = c.range(0, 2); whole(c, v, -1, true, b ? std::vector<int>{a, b} : std::vector<int>{a}); }
SCENARIO(shared_3, 4) { auto v = choose_ops(c, 3, {0, 1, 2}, c.thorough() ? std::vector<std::string>{"", "a", "relu1"} : std::vector<std::string>{""}, false); if (!c.thorough()) { int n = c.range(0, 3); if (n < 3) v[n].name = "relu1"; } int a = c.range(1, 3), b = c.thorough() ? c.range(0, 3) : 0; whole(c, v, c.thorough() ? 1 : 0, false, b ? std::vector<int>{a, b} : std::vector<int>{a}); }
SCENARIO_THOROUGH(shared_4, 4) { auto v = choose_ops(c, 4, {1, 2}, {"", "relu1"}, false); int a = c.range(1, 4), b = c.range(0, 4); whole(c, v, 0, false, b ? std::vector<int>{a, b} : std::vector<int>{a}); }
// many unnamed layers: generated names with several digits, all distinct
SCENARIO(many_unnamed, 1) { int k = c.range(1, 40), kinds = c.choose(4), names = c.choose(3); std::vector<NOp> v; for (int i = 0; i < k; ++i) v.push_back({kinds == 0 ? 1 : kinds == 1 ? 0 : kinds == 2 ? (i % 2) : std::vector<int>{0, 3, 1, 4, 2}[i % 5], i, i, names == 0 ? "" : names == 1 ? "n" + std::to_string(i) : (i % 3 ? "" : "x" + std::to_string(i))}); whole(c, v, 0, false); }
// odd but distinct explicit names
SCENARIO(odd_names, 2) { static const std::vector<std::string> O = {"a", "A", "a.b", "a.weight", "a ", " ", ".", "a\nb", std::string("a\0b", 3), "\xc3\xa9", "linear", "Linear0", "weight", std::string(300, 'q'), std::string(300, 'q') + "r", std::string(300, 'q') + "s", std::string(16, 'p') + "1", std::string(16, 'p') + "2", "1" + std::string(70, 'p'), "2" + std::string(70, 'p'), "block1_conv_a", "block1_conv_b"}; std::vector<NOp> v{{0, 0, 0, O[c.choose((int)O.size())]}, {3, 1, 0, O[c.choose((int)O.size())]}}; whole(c, v, 0, true); }
// every layer type: keys, types and storage
SCENARIO(zoo_views, 2) {
    auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); dw::Model m(n.in, n.out); size_t np = 0, ns = 0;
    for (size_t i = 0; i < n.its.size(); ++i) { auto l = m.getLayer("layer" + std::to_string(i)); CK(l.type() == n.its[i]->type && l.name() == "layer" + std::to_string(i), "getLayer returns another layer"); CK(l.inputs().size() == (l.type() == "Add" ? 2u : 1u) && l.inputs()[0].m_impl == n.vals[i].m_impl, "input placeholders"); Lay e = n.its[i]->lay(n.vals[i].shape()); CK(l.params().size() == e.info.params().size() && l.buffers().size() == e.info.buffers().size(), "params of a layer"); for (auto& kv : e.info.params()) { std::string k = l.name() + "." + kv.first; CK(m.params().count(k) && m.state().count(k) && m.params().at(k).data().data() == m.state().at(k).data() && l.params().at(kv.first).data().data() == m.state().at(k).data() && m.state().at(k).shape() == kv.second.data().shape(), "'" + k + "'"); ++np; ++ns; } for (auto& kv : e.info.buffers()) { std::string k = l.name() + "." + kv.first; CK(m.state().count(k) && l.buffers().at(kv.first).data() == m.state().at(k).data(), "'" + k + "'"); ++ns; } c.step(); }
    CK(m.params().size() == np && m.state().size() == ns, "extra entries in params() or state()"); m.compile(); zoo::randomize(m, 3); m.train(false); Vec x = ints(prod(n.is), 2, 4); Vec e = zoo::compose(n, m, x, false); dw::Tensor ty(n.os); m.forward(mk(n.is, x), ty); c.step(); expect_vec(c, "forward after writing the state", vals(ty), e, 1e-5, 1e-5);
}
