// Structural comparison of two models by what a user can observe.
#pragma once
#include "zoo.hpp"
#include <set>
namespace cfgcmp {
inline std::string attr_str(const dw::Attribute& a) {
    std::ostringstream o; o << int(a.shape()) << "/" << int(a.type()) << ":";
    if (a.shape() == dw::AttrShape::VALUE) { if (a.type() == dw::AttrType::INT) o << a.get<int>(); else o << bits(a.get<float>()); }
    else { if (a.type() == dw::AttrType::INT) { auto v = a.get<std::array<int, 2>>(); o << v[0] << "," << v[1]; } else { auto v = a.get<std::array<float, 2>>(); o << bits(v[0]) << "," << bits(v[1]); } }
    return o.str();
}
// Text of a config that is the same for configs describing the same model: values are named by
// where they come from (input position, or layer name), not by id.
inline std::string canon(const dw::Model::Config& k) {
    std::map<int, std::string> nm; std::ostringstream o;
    for (size_t i = 0; i < k.input_ids.size(); ++i) nm[k.input_ids[i]] = "in" + std::to_string(i);
    for (auto& op : k.sorted_ops) for (size_t i = 0; i < op.out_ids.size(); ++i) nm[op.out_ids[i]] = "'" + op.name + "'." + std::to_string(i);
    auto val = [&](int id) { auto it = nm.find(id); auto p = k.ph_map.find(id); return (it == nm.end() ? "unknown value " + std::to_string(id) : it->second) + (p == k.ph_map.end() ? " without shape" : sstr(p->second.shape) + (p->second.id == id ? "" : " wrong id")); };
    std::set<std::string> lines;
    for (auto& op : k.sorted_ops) { std::ostringstream l; l << op.type << " '" << op.name << "' ("; for (int i : op.in_ids) l << val(i) << ", "; l << ") -> ("; for (int i : op.out_ids) l << val(i) << ", "; l << ")"; std::map<std::string, std::string> at; for (auto& kv : op.attrs) at[kv.first] = attr_str(kv.second); for (auto& kv : at) l << " " << kv.first << "=" << kv.second; lines.insert(l.str()); }
    for (auto& l : lines) o << l << "\n";
    o << "inputs"; for (int i : k.input_ids) o << " " << val(i); o << "\noutputs"; for (int i : k.output_ids) o << " " << val(i); o << "\nvalues " << k.ph_map.size() << " layers " << k.sorted_ops.size() << "\n"; return o.str();
}
inline std::string canon_model(dw::Model& m) {
    std::ostringstream o; o << "inputs"; for (auto& p : m.inputs()) o << sstr(p.shape()); o << " outputs"; for (auto& p : m.outputs()) o << sstr(p.shape()); o << "\n";
    std::set<std::string> s; for (auto& l : m.layers()) { std::string t = l.type() + " '" + l.name() + "'"; for (auto& p : l.inputs()) t += sstr(p.shape()); t += "->"; for (auto& p : l.outputs()) t += sstr(p.shape()); s.insert(t); } for (auto& t : s) o << t << "\n";
    std::set<std::string> e; for (auto& kv : m.state()) e.insert("state " + kv.first + sstr(kv.second.shape())); for (auto& kv : m.params()) e.insert("param " + kv.first + sstr(kv.second.data().shape())); for (auto& t : e) o << t << "\n"; return o.str();
}
inline void same_model(vp::Ctx& c, const std::string& what, dw::Model& a, dw::Model& b) {
    std::string x = canon_model(a), y = canon_model(b); if (x != y) c.fail(what + " differs:\n" + x + "versus\n" + y);
    x = canon(a.cfg()); y = canon(b.cfg()); if (x != y) c.fail("config of " + what + " differs:\n" + x + "versus\n" + y);
}
inline void same_state(vp::Ctx& c, const std::string& what, dw::Model& a, dw::Model& b) { c.check(a.state().size() == b.state().size(), what + ": number of state entries"); for (auto& kv : a.state()) { c.check(b.state().count(kv.first), what + ": no entry " + kv.first); auto t = b.state().at(kv.first); c.check(t.shape() == kv.second.shape(), what + ": shape of " + kv.first); expect_same(c, what + ": " + kv.first, vals(t), vals(kv.second)); } }
inline std::vector<Vec> run(dw::Model& m, uint64_t salt) {
    std::vector<dw::Tensor> in, out; for (size_t i = 0; i < m.inputs().size(); ++i) in.push_back(mk(m.inputs()[i].shape(), ints(prod(m.inputs()[i].shape()), salt + 31 * i, 4))); for (auto& p : m.outputs()) out.push_back(mk(p.shape(), Vec(prod(p.shape()), NAN)));
    m.train(false); m.forward(in, out); std::vector<Vec> r; for (auto& t : out) r.push_back(vals(t)); return r;
}
inline void same_function(vp::Ctx& c, const std::string& what, dw::Model& a, dw::Model& b) { for (int s = 0; s < 2; ++s) { auto x = run(a, 3 + s), y = run(b, 3 + s); c.step(2); c.check(x.size() == y.size(), what + ": number of outputs"); for (size_t i = 0; i < x.size(); ++i) expect_same(c, what + ": output " + std::to_string(i), y[i], x[i]); } }
// A layer of every type with one attribute value chosen from a grid
struct One { std::string desc; dw::Placeholder in, out; };
inline One one(vp::Ctx& c, const std::string& name) {
    One o; int t = c.choose(10, "layer type"); std::ostringstream d; static const std::vector<float> FV = {0.f, 0.1f, 1e-5f, 0.999f, 0.3333333f, 1e-30f}; static const std::vector<A2> K = {{1, 1}, {2, 3}, {3, 1}, {3, 3}}, P = {{0, 0}, {1, 0}, {0, 2}, {2, 1}}, S = {{1, 1}, {2, 1}, {1, 3}};
    Sh s4{2, 2, 5, 4}, s2{2, 3}; 
    switch (t) {
    case 0: { int u = c.pick(std::vector<int>{1, 2, 7, 33}); o.in = dw::Placeholder(c.flip() ? s4 : s2); o.out = dw::Linear(u, name)(o.in); d << "Linear(" << u << ")"; break; }
    case 1: { int co = c.range(1, 3); auto k = c.pick(K), p = c.pick(P), s = c.pick(S); o.in = dw::Placeholder(s4); o.out = dw::Convolution(co, k, p, s, name)(o.in); d << "Convolution(" << co << "," << a2s(k) << "," << a2s(p) << "," << a2s(s) << ")"; break; }
    case 2: { auto k = c.pick(K), p = c.pick(P), s = c.pick(S); if (p[0] >= k[0] || p[1] >= k[1]) throw vp::Skip{}; o.in = dw::Placeholder(s4); o.out = dw::MaxPooling(k, p, s, name)(o.in); d << "MaxPooling(" << a2s(k) << "," << a2s(p) << "," << a2s(s) << ")"; break; }
    case 3: { float e = c.pick(FV), a = c.pick(FV); o.in = dw::Placeholder(s2); o.out = dw::BatchNorm1D(e, a, name)(o.in); d << "BatchNorm1D(" << e << "," << a << ")"; break; }
    case 4: { float e = c.pick(FV), a = c.pick(FV); o.in = dw::Placeholder(s4); o.out = dw::BatchNorm2D(e, a, name)(o.in); d << "BatchNorm2D(" << e << "," << a << ")"; break; }
    case 5: { float a = c.pick(FV); o.in = dw::Placeholder(s2); o.out = dw::LeakyReLU(a, name)(o.in); d << "LeakyReLU(" << a << ")"; break; }
    case 6: { float a = c.pick(FV); o.in = dw::Placeholder(s2); o.out = dw::ELU(a, name)(o.in); d << "ELU(" << a << ")"; break; }
    case 7: { float a = c.pick(FV); o.in = dw::Placeholder(s4); o.out = dw::Dropout(a, name)(o.in); d << "Dropout(" << a << ")"; break; }
    case 8: { o.in = dw::Placeholder(s2); int k = c.choose(4); o.out = k == 0 ? dw::ReLU(name)(o.in) : k == 1 ? dw::Sigmoid(name)(o.in) : k == 2 ? dw::Softmax(name)(o.in) : dw::Add(name)(o.in, o.in); d << "simple layer " << k; break; }
    default: o.in = dw::Placeholder(s4); o.out = dw::GlobalAvgPooling(name)(o.in); d << "GlobalAvgPooling"; break; }
    o.desc = d.str() + " '" + name + "'"; return o;
}
}
