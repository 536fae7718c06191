// C12: after every history of passes, the next pass equals that of a fresh layer with the same
// parameters.
#include "ref.hpp"
#include "twins.hpp"
#include <map>
namespace {
struct Case { std::string name; std::function<Lay(const Sh&)> make; std::vector<Sh> shapes; bool two = false; };
const std::vector<Case>& cases() {
    static std::vector<Case> v;
    if (v.empty()) {
        auto add = [&](std::string n, std::function<Lay(const Sh&)> f, std::vector<Sh> s, bool two = false) { v.push_back({n, f, s, two}); };
        add("Linear(3)", [](const Sh& s) { return Lay::make(dw::Linear(3, "x"), {s}); }, {{2, 4}, {5, 4}, {1, 4}, {3, 2, 2}, {2, 1, 4, 1}});
        // shapes with equal and different scratch sizes
        add("Convolution k2x3 p1,0 s1,2", [](const Sh& s) { return Lay::make(dw::Convolution(2, {2, 3}, {1, 0}, {1, 2}, "x"), {s}); }, {{1, 2, 3, 5}, {2, 2, 3, 5}, {1, 2, 7, 5}, {1, 2, 3, 9}, {3, 2, 1, 3}});
        add("Convolution k1x1", [](const Sh& s) { return Lay::make(dw::Convolution(3, {1, 1}, {0, 0}, {1, 1}, "x"), {s}); }, {{1, 1, 2, 3}, {1, 1, 3, 2}, {6, 1, 1, 1}, {2, 1, 3, 1}, {2, 1, 4, 4}});
        add("Convolution k3x3 p1 s1", [](const Sh& s) { return Lay::make(dw::Convolution(1, {3, 3}, {1, 1}, {1, 1}, "x"), {s}); }, {{2, 1, 3, 4}, {1, 1, 4, 6}, {1, 1, 6, 4}, {3, 1, 2, 4}, {1, 1, 2, 2}});
        add("MaxPooling k2x2 s2", [](const Sh& s) { return Lay::make(dw::MaxPooling({2, 2}, {0, 0}, {2, 2}, "x"), {s}); }, {{1, 2, 4, 6}, {1, 2, 6, 4}, {2, 2, 4, 6}, {2, 1, 5, 7}, {1, 1, 2, 2}});
        add("MaxPooling k3x2 p1,1 s1,2", [](const Sh& s) { return Lay::make(dw::MaxPooling({3, 2}, {1, 1}, {1, 2}, "x"), {s}); }, {{1, 1, 4, 5}, {1, 2, 2, 5}, {2, 1, 2, 5}, {1, 1, 5, 4}, {1, 3, 1, 1}});
        add("BatchNorm1D", [](const Sh& s) { return Lay::make(dw::BatchNorm1D(0.25f, 0.5f, "x"), {s}); }, {{2, 3}, {5, 3}, {1, 3}, {4, 3}});
        add("BatchNorm2D", [](const Sh& s) { return Lay::make(dw::BatchNorm2D(0.25f, 0.5f, "x"), {s}); }, {{2, 2, 2, 3}, {2, 2, 3, 2}, {1, 2, 3, 4}, {3, 2, 2, 2}, {1, 2, 1, 1}});
        add("GlobalAvgPooling", [](const Sh& s) { return Lay::make(dw::GlobalAvgPooling("x"), {s}); }, {{2, 2, 2, 3}, {1, 3, 4, 1}, {3, 1, 2, 2}, {1, 2, 1, 1}});
        add("ReLU", [](const Sh& s) { return Lay::make(dw::ReLU("x"), {s}); }, {{2, 3}, {7}, {1, 2, 2, 2}, {4, 5}});
        add("LeakyReLU", [](const Sh& s) { return Lay::make(dw::LeakyReLU(0.25f, "x"), {s}); }, {{2, 3}, {7}, {1, 2, 2, 2}, {4, 5}});
        add("ELU", [](const Sh& s) { return Lay::make(dw::ELU(0.5f, "x"), {s}); }, {{2, 3}, {7}, {1, 2, 2, 2}, {4, 5}});
        add("Sigmoid", [](const Sh& s) { return Lay::make(dw::Sigmoid("x"), {s}); }, {{2, 3}, {7}, {1, 2, 2, 2}, {4, 5}});
        add("Softmax", [](const Sh& s) { return Lay::make(dw::Softmax("x"), {s}); }, {{2, 3}, {1, 7}, {5, 2}, {3, 9}});
        add("Add", [](const Sh& s) { return Lay::make(dw::Add("x"), {s, s}); }, {{2, 3}, {7}, {1, 2, 2, 2}, {4, 5}}, true);
    }
    return v;
}
struct Res { Vec y; std::vector<Vec> gi; std::map<std::string, Vec> pg, buf; };
// The history layer sees the same tensors, overwritten in place, whenever a shape comes back.
struct Bufs { std::map<std::string, dw::Tensor> m; dw::Tensor get(const std::string& role, const Sh& s, const Vec& v) { auto k = role + sstr(s); auto it = m.find(k); if (it == m.end()) it = m.emplace(k, dw::Tensor(s)).first; setv(it->second, v); return it->second; } };
Res pass(Bufs& b, Lay& l, const Sh& s, const Sh& os, bool two, int salt, int mode) { // mode 0 forward, 1 forward+backward, 2 forward, parameter gradients only
    std::vector<dw::Tensor> in{b.get("a", s, ints(prod(s), salt, 6))}; if (two) in.push_back(b.get("b", s, ints(prod(s), salt + 500, 6)));
    auto y = b.get("y", os, Vec(prod(os), NAN)); std::vector<dw::Tensor> o{y}; l.impl->forward(in, o); y = o[0]; Res r; r.y = vals(y);
    if (mode) {
        auto go = b.get("go", os, ints(prod(os), salt + 900, 5));
        l.params_grad(in, go);
        if (mode == 1) { std::vector<dw::Tensor> gi; for (auto& t : in) gi.push_back(b.get("gi" + std::to_string(gi.size()), t.shape(), ints(t.total(), 3, 2))); l.backward(in, y, go, gi); for (auto& g : gi) r.gi.push_back(vals(g)); }
        for (auto& kv : l.info.params()) r.pg[kv.first] = vals(kv.second.grad());
    }
    for (auto& kv : l.info.buffers()) r.buf[kv.first] = vals(kv.second);
    return r;
}
}
SCENARIO(histories, 3) {
    auto& k = cases()[c.choose((int)cases().size())];
    int B = (int)k.shapes.size(), D = c.thorough() ? 5 : 4;
    if (!c.thorough() && B == 5) D = 3 + (k.name.find("p1") != std::string::npos || k.name[0] == 'B');
    Lay l = k.make(k.shapes[0]);
    std::map<std::string, Vec> pv; int si = 0; for (auto& kv : l.info.impl().params) { Vec v = ints(kv.second.data().total(), 60 + si++, 4); setv(kv.second.data(), v); pv[kv.first] = v; }
    c.tell(k.name);
    uint64_t st = vp::hash_str(k.name); bool keep = c.flip(); st += keep; if (keep && !c.thorough()) D = std::min(D, 3); if (keep) c.tell("tensors overwritten in place"); Bufs kept;
    for (int d = 0; d < D; ++d) {
        int s = c.choose(B), mode = c.choose(d + 1 == D ? 2 : 3); if (d + 1 == D) mode = 1;
        c.tell(sstr(k.shapes[s]), mode == 0 ? " forward" : mode == 1 ? " forward+backward" : " forward+parameter gradients");
        Lay f = k.make(k.shapes[s]); Sh os = f.out;
        for (auto& kv : f.info.impl().params) setv(kv.second.data(), pv.at(kv.first));
        for (auto& kv : f.info.impl().buffers) setv(kv.second, vals(l.buffer(kv.first)));
        int salt = 100 + d * 7 + s;
        Bufs b1, b2; Res a = pass(keep ? kept : b1, l, k.shapes[s], os, k.two, salt, mode), b = pass(b2, f, k.shapes[s], os, k.two, salt, mode);
        c.step();
        expect_vec(c, "output", a.y, b.y, 2e-6, 2e-6);
        for (size_t i = 0; i < a.gi.size(); ++i) expect_vec(c, "grad_input", a.gi[i], b.gi[i], 2e-6, 2e-6);
        for (auto& kv : b.pg) expect_vec(c, "gradient of " + kv.first, a.pg[kv.first], kv.second, 2e-6, 2e-6);
        for (auto& kv : b.buf) expect_vec(c, kv.first, a.buf[kv.first], kv.second, 2e-6, 2e-6);
        for (auto& kv : pv) expect_same(c, "value of " + kv.first, vals(l.param(kv.first)), kv.second);
        st = vp::mix(vp::mix(st, s), mode); c.state(st);
    }
}
// many hundred passes on one layer, each against a fresh layer
SCENARIO(long_run, 3) {
    auto& k = cases()[c.choose((int)cases().size())]; int B = (int)k.shapes.size(), sc = c.choose(SCHEDULES), N = c.thorough() ? 20000 : 2100; bool keep = c.flip(); Bufs kept; Lay l = k.make(k.shapes[0]); std::map<std::string, Vec> pv; int si = 0; for (auto& kv : l.info.impl().params) { Vec v = ints(kv.second.data().total(), 60 + si++, 4); setv(kv.second.data(), v); pv[kv.first] = v; }
    c.tell(k.name, " ", N, " passes, schedule ", sc, keep ? ", tensors overwritten in place" : "");
    for (int d = 0; d < N; ++d) {
        int s = scheduled(sc, d, B), mode = d % 4 == 3 ? 0 : d % 7 == 6 ? 2 : 1; Lay f = k.make(k.shapes[s]); Sh os = f.out; for (auto& kv : f.info.impl().params) setv(kv.second.data(), pv.at(kv.first)); for (auto& kv : f.info.impl().buffers) setv(kv.second, vals(l.buffer(kv.first)));
        Bufs b1, b2; Res a = pass(keep ? kept : b1, l, k.shapes[s], os, k.two, 100 + d, mode), b = pass(b2, f, k.shapes[s], os, k.two, 100 + d, mode); c.step();
        expect_vec(c, "output", a.y, b.y, 2e-6, 2e-6); for (size_t i = 0; i < a.gi.size(); ++i) expect_vec(c, "grad_input", a.gi[i], b.gi[i], 2e-6, 2e-6); for (auto& kv : b.pg) expect_vec(c, "gradient of " + kv.first, a.pg[kv.first], kv.second, 2e-6, 2e-6); for (auto& kv : b.buf) expect_vec(c, kv.first, a.buf[kv.first], kv.second, 2e-6, 2e-6); for (auto& kv : pv) expect_same(c, "value of " + kv.first, vals(l.param(kv.first)), kv.second); c.states_n(1);
    }
}
// between two passes a single number changes: an element of an input, of the output gradient, of a parameter or of a buffer
SCENARIO(one_changed, 3) {
    auto& k = cases()[c.choose((int)cases().size())]; int si = c.choose((int)k.shapes.size()); auto& s = k.shapes[si]; bool keep = c.flip(); Lay l = k.make(s); Sh os = l.out; c.tell(k.name, " ", sstr(s), keep ? " in place, " : ", ");
    std::map<std::string, Vec> pv, bv; int q = 0; for (auto& kv : l.info.impl().params) pv[kv.first] = ints(kv.second.data().total(), 60 + q++, 4); for (auto& kv : l.info.buffers()) bv[kv.first] = gen(kv.second.total(), [](size_t i) { return 1 + int(i) % 3; });
    std::vector<std::string> roles = {"a", "go"}; if (k.two) roles.push_back("b"); for (auto& kv : pv) roles.push_back("p" + kv.first); for (auto& kv : bv) roles.push_back("q" + kv.first);
    auto role = c.pick(roles); Vec a = ints(prod(s), 100, 6), b = ints(prod(s), 600, 6), go = ints(prod(os), 1000, 5); Vec& t = role == "a" ? a : role == "b" ? b : role == "go" ? go : role[0] == 'p' ? pv.at(role.substr(1)) : bv.at(role.substr(1));
    int n = (int)t.size(), at = n > 12 ? c.pick(std::vector<int>{0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1}) : c.choose(n); int how = c.choose(3); c.tell("element ", at, " of ", role, how == 0 ? " grows" : how == 1 ? " changes its sign" : " becomes 0");
    auto go1 = [&](Lay& l, Bufs& f) { std::map<std::string, Vec> r; for (auto& kv : pv) setv(l.info.impl().params.at(kv.first).data(), kv.second); for (auto& kv : bv) setv(l.buffer(kv.first), kv.second);
        std::vector<dw::Tensor> in{f.get("a", s, a)}, gi; if (k.two) in.push_back(f.get("b", s, b)); auto y = f.get("y", os, Vec(prod(os), NAN)); std::vector<dw::Tensor> o{y}; l.impl->forward(in, o); r["output"] = vals(o[0]); auto g = f.get("go", os, go); l.params_grad(in, g); for (auto& x : in) gi.push_back(f.get("gi" + std::to_string(gi.size()), s, ints(x.total(), 3, 2))); l.backward(in, o[0], g, gi);
        for (size_t i = 0; i < gi.size(); ++i) r["input gradient " + std::to_string(i)] = vals(gi[i]); for (auto& kv : l.info.params()) r["gradient of " + kv.first] = vals(kv.second.grad()); for (auto& kv : l.info.buffers()) r[kv.first] = vals(kv.second); return r; };
    Bufs kept; float old = t[at]; float now = how == 0 ? old + 1 : how == 1 ? (old == 0 ? 2 : -old) : (old == 0 ? 3 : 0); if (role[0] == 'q' && now < 0) now = 5; std::map<std::string, Vec> got[3]; for (int d = 0; d < 3; ++d) { t[at] = d == 1 ? now : old; Bufs f; got[d] = go1(l, keep ? kept : f); c.step(); }
    for (int d = 0; d < 3; ++d) { // alone, on a new layer, after something else has run
        { Lay o = k.make(k.shapes[(si + 1) % k.shapes.size()]); Bufs f; auto& s2 = k.shapes[(si + 1) % k.shapes.size()]; pass(f, o, s2, o.out, k.two, 7777 + d, 1); }
        t[at] = d == 1 ? now : old; Lay n = k.make(s); Bufs f; auto ref = go1(n, f); for (auto& kv : ref) expect_vec(c, kv.first + (d == 0 ? " at first" : d == 1 ? " after the change" : " after changing back"), got[d].at(kv.first), kv.second, 2e-6, 2e-6); }
    c.state(vp::mix(vp::mix(vp::hash_str(k.name + role), si * 2 + keep), at * 3 + how));
}
// two layers whose lives overlap
SCENARIO(two, 6) { twins::run(c, {"Linear","Convolution","MaxPooling","BatchNorm","Add","GlobalAvgPooling","Softmax","Activation"}, twins::ALL); }
