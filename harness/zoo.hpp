// Every layer type with several attribute values, combined into chains (optionally with a residual
// Add around the last layer when shapes allow).
#pragma once
#include "dag.hpp"
#include <deepworks/nn.hpp>
namespace zoo {
struct Item { std::string desc, type; std::function<dw::Placeholder(const dw::Placeholder&, const std::string&)> apply; std::function<bool(const Sh&)> fits; std::function<Lay(const Sh&)> lay; };
inline const std::vector<Item>& items() {
    static std::vector<Item> v;
    if (v.empty()) {
        auto any = [](const Sh&) { return true; }; auto r2 = [](const Sh& s) { return s.size() == 2; }; auto r4 = [](const Sh& s) { return s.size() == 4; };
        auto big = [](int kh, int kw) { return [kh, kw](const Sh& s) { return s.size() == 4 && s[2] >= kh && s[3] >= kw; }; };
        using P = dw::Placeholder; using S = std::string;
        auto add = [&](const char* d, const char* t, auto mkop, std::function<bool(const Sh&)> f) { v.push_back({d, t, [mkop](const P& x, const S& n) { auto op = mkop(n); return op(x); }, f, [mkop](const Sh& s) { return Lay::make(mkop("l"), {s}); }}); };
        add("Linear(3)", "Linear", [](const S& n) { return dw::Linear(3, n); }, any);
        add("Linear(1)", "Linear", [](const S& n) { return dw::Linear(1, n); }, any);
        add("ReLU", "ReLU", [](const S& n) { return dw::ReLU(n); }, any);
        add("LeakyReLU(0.25)", "LeakyReLU", [](const S& n) { return dw::LeakyReLU(0.25f, n); }, any);
        add("LeakyReLU(3)", "LeakyReLU", [](const S& n) { return dw::LeakyReLU(3.f, n); }, any);
        add("ELU(0.5)", "ELU", [](const S& n) { return dw::ELU(0.5f, n); }, any);
        add("ELU(2)", "ELU", [](const S& n) { return dw::ELU(2.f, n); }, any);
        add("Sigmoid", "Sigmoid", [](const S& n) { return dw::Sigmoid(n); }, any);
        add("Softmax", "Softmax", [](const S& n) { return dw::Softmax(n); }, r2);
        add("Dropout(0.5)", "Dropout", [](const S& n) { return dw::Dropout(0.5f, n); }, any);
        add("Dropout(0.25)", "Dropout", [](const S& n) { return dw::Dropout(0.25f, n); }, any);
        add("BatchNorm1D", "BatchNorm1D", [](const S& n) { return dw::BatchNorm1D(0.25f, 0.5f, n); }, r2);
        add("BatchNorm1D(0.01,0.9)", "BatchNorm1D", [](const S& n) { return dw::BatchNorm1D(0.01f, 0.9f, n); }, r2);
        add("BatchNorm2D", "BatchNorm2D", [](const S& n) { return dw::BatchNorm2D(0.25f, 0.5f, n); }, r4);
        add("BatchNorm2D(0.01,0.75)", "BatchNorm2D", [](const S& n) { return dw::BatchNorm2D(0.01f, 0.75f, n); }, r4);
        add("Convolution(2,k3x2,p1x0,s1x2)", "Convolution", [](const S& n) { return dw::Convolution(2, {3, 2}, {1, 0}, {1, 2}, n); }, big(1, 2));
        add("Convolution(3,k1x3,p0x1,s2x1)", "Convolution", [](const S& n) { return dw::Convolution(3, {1, 3}, {0, 1}, {2, 1}, n); }, big(1, 1));
        add("MaxPooling(k2x3,p0x1,s1x2)", "MaxPooling", [](const S& n) { return dw::MaxPooling({2, 3}, {0, 1}, {1, 2}, n); }, big(2, 1));
        add("MaxPooling(k3x2,p1x0,s2x1)", "MaxPooling", [](const S& n) { return dw::MaxPooling({3, 2}, {1, 0}, {2, 1}, n); }, big(1, 2));
        add("GlobalAvgPooling", "GlobalAvgPooling", [](const S& n) { return dw::GlobalAvgPooling(n); }, r4);
        v.push_back({"Add(x,x)", "Add", [](const P& x, const S& n) { return dw::Add(n)(x, x); }, any, [](const Sh& s) { return Lay::make(dw::Add("l"), {s, s}); }});
    }
    return v;
}
// shape-preserving layers, so that several of one type with equal shapes fit into one model
inline const std::vector<Item>& square() {
    static std::vector<Item> v;
    if (v.empty()) {
        for (auto& i : items()) for (const char* t : {"ReLU", "LeakyReLU(0.25)", "ELU(2)", "Sigmoid", "Softmax", "BatchNorm1D", "BatchNorm2D", "Add(x,x)"}) if (i.desc == t) v.push_back(i);
        auto r2 = [](const Sh& s) { return s.size() == 2; }; auto r4 = [](const Sh& s) { return s.size() == 4; }; using P = dw::Placeholder; using S = std::string;
        auto add = [&](const char* d, const char* t, auto mkop, std::function<bool(const Sh&)> f) { v.push_back({d, t, [mkop](const P& x, const S& n) { auto op = mkop(n); return op(x); }, f, [mkop](const Sh& s) { return Lay::make(mkop("l"), {s}); }}); };
        add("Linear(4)", "Linear", [](const S& n) { return dw::Linear(4, n); }, r2);
        add("Convolution(2,k3x3,p1,s1)", "Convolution", [](const S& n) { return dw::Convolution(2, {3, 3}, {1, 1}, {1, 1}, n); }, r4);
        add("Convolution(2,k1x1,p0,s1)", "Convolution", [](const S& n) { return dw::Convolution(2, {1, 1}, {0, 0}, {1, 1}, n); }, r4);
        add("MaxPooling(k3x3,p1,s1)", "MaxPooling", [](const S& n) { return dw::MaxPooling({3, 3}, {1, 1}, {1, 1}, n); }, r4);
    }
    return v;
}
struct Net { bool ok = false; std::string desc; dw::Placeholder in; std::vector<dw::Placeholder> vals; dw::Placeholder out; std::vector<const Item*> its; bool residual = false; Sh is, os; };
inline Net chain(const std::vector<const Item*>& its, bool residual, const Sh* want = nullptr) {
    Net n; bool four = its[0]->fits(Sh{2, 2, 5, 4}) && !its[0]->fits(Sh{2, 3}); for (auto* i : its) if (i->type == "Convolution" || i->type == "MaxPooling" || i->type == "BatchNorm2D" || i->type == "GlobalAvgPooling") four = true;
    n.is = want ? *want : four ? Sh{2, 2, 5, 4} : Sh{3, 4}; n.in = dw::Placeholder(n.is); dw::Placeholder x = n.in; n.its = its; int k = 0;
    for (auto* i : its) { if (!i->fits(x.shape())) return n; n.vals.push_back(x); x = i->apply(x, "layer" + std::to_string(k++)); n.desc += i->desc + " "; }
    if (residual) { if (x.shape() != n.vals.back().shape()) return n; x = dw::Add("res")(x, n.vals.back()); n.desc += "+ residual "; n.residual = true; }
    n.out = x; n.os = x.shape(); n.ok = true; return n;
}
inline void randomize(dw::Model& m, uint64_t salt) { // values derived from the entry's name, so independent of map order
    for (auto& kv : m.state()) { uint64_t h = vp::mix(salt, vp::hash_str(kv.first)); bool var = kv.first.find("running_var") != std::string::npos; auto t = kv.second; for (size_t i = 0; i < t.total(); ++i) t.data()[i] = var ? 0.5f + float(vp::mix(h, i) % 5) * 0.25f : float(scat(i, h, 3)) * 0.5f; }
}
// runs the layers one by one through the layer interface with the model's own parameter values
inline Vec compose(const Net& n, dw::Model& m, const Vec& x, bool train) {
    dw::Tensor t = mk(n.is, x); dw::Tensor last;
    std::vector<std::string> names; for (size_t i = 0; i < n.its.size(); ++i) names.push_back("layer" + std::to_string(i));
    for (size_t i = 0; i < n.its.size(); ++i) {
        Net one = chain({n.its[i]}, false, nullptr); dw::Placeholder in(t.shape()); auto out = n.its[i]->apply(in, "layer" + std::to_string(i));
        dw::Model single(in, out); // only to reach the layer's parameter storage
        for (auto& kv : single.state()) setv(kv.second, vals(m.state().at(kv.first))); single.train(train); 
        single.compile(); dw::Tensor y(out.shape()); single.forward(t, y); last = t; t = y;
    }
    Vec r = vals(t); if (n.residual) { Vec l = vals(last); for (size_t i = 0; i < r.size(); ++i) r[i] += l[i]; } return r;
}
inline void check_forward(vp::Ctx& c, Net& n) {
    dw::Model m; { dag::Orders o(c, 0); m = dw::Model(n.in, n.out); } m.compile(); randomize(m, 5); m.train(false);
    for (int r = 0; r < 2; ++r) { Vec x = ints(prod(n.is), 7 + r, 4); Vec e = compose(n, m, x, false); dw::Tensor tx = mk(n.is, x), ty = mk(n.os, Vec(prod(n.os), NAN)); m.forward(tx, ty); c.step(); expect_vec(c, "output", vals(ty), e, 1e-5, 1e-5); expect_same(c, "input", vals(tx), x); }
}
} // namespace zoo
