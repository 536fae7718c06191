// C42: a layer rejects the uses it cannot serve, and a rejected call leaves no trace: in every history
// of valid and rejected calls, a twin that has seen the valid calls alone gives the same numbers.
#include "dwh.hpp"
#include <map>
namespace {
using Shs = std::vector<Sh>; using A = std::array<int, 2>;
struct Bad { std::string what; Shs in, out; }; // a forward call with these tensors
struct Attr { std::string name; A v; };
struct Kind { std::string name; std::function<Lay(const Sh&)> make; Shs shapes; std::vector<Bad> bad; std::vector<Attr> attrs; bool early_b = false, early_g = false, other_go = false, flags = false; Shs outs{}; };
const std::vector<Kind>& kinds() {
    static std::vector<Kind> v; if (!v.empty()) return v;
    auto counts = [](Kind& k, const Sh& s, const Sh& o) { k.bad.push_back({"no input", {}, {o}}); k.bad.push_back({"two inputs", {s, s}, {o}}); k.bad.push_back({"no output", {s}, {}}); k.bad.push_back({"two outputs", {s}, {o, o}}); };
    auto fin = [&](Kind k) { for (auto& s : k.shapes) k.outs.push_back(k.make(s).out); v.push_back(k); };
    auto un = [&](std::string n, std::function<Lay(const Sh&)> f) { Kind k{n, f, {{2, 3}, {3, 2, 2}}}; counts(k, {2, 3}, {2, 3}); for (auto& o : Shs{{2, 4}, {2, 2}, {3, 3}, {1, 3}, {6}, {3, 2}, {2, 3, 1}, {1, 2, 3}}) k.bad.push_back({"input {2,3}, output " + sstr(o), {{2, 3}}, {o}}); fin(k); };
    un("ReLU", [](const Sh& s) { return Lay::make(dw::ReLU("x"), {s}); }); un("LeakyReLU", [](const Sh& s) { return Lay::make(dw::LeakyReLU(0.25f, "x"), {s}); }); un("ELU", [](const Sh& s) { return Lay::make(dw::ELU(0.5f, "x"), {s}); }); un("Sigmoid", [](const Sh& s) { return Lay::make(dw::Sigmoid("x"), {s}); });
    un("Dropout p=0", [](const Sh& s) { return Lay::make(dw::Dropout(0.f, "x"), {s}); });
    { Kind k{"Softmax", [](const Sh& s) { return Lay::make(dw::Softmax("x"), {s}); }, {{2, 3}, {3, 4}}}; counts(k, {2, 3}, {2, 3}); for (auto& o : Shs{{6}, {2, 3, 1}, {1, 2, 3}, {1, 2, 3, 1}}) { k.bad.push_back({"input " + sstr(o), {o}, {{2, 3}}}); k.bad.push_back({"output " + sstr(o), {{2, 3}}, {o}}); } fin(k); }
    { Kind k{"Linear(3)", [](const Sh& s) { return Lay::make(dw::Linear(3, "x"), {s}); }, {{2, 4}, {3, 2, 2}}}; counts(k, {2, 4}, {2, 3}); k.bad.push_back({"input {4}", {{4}}, {{2, 3}}}); k.bad.push_back({"input {8}", {{8}}, {{2, 3}}}); k.bad.push_back({"output {6}", {{2, 4}}, {{6}}}); k.bad.push_back({"output {3}", {{2, 4}}, {{3}}}); fin(k); }
    { Kind k{"BatchNorm1D", [](const Sh& s) { return Lay::make(dw::BatchNorm1D(0.25f, 0.5f, "x"), {s}); }, {{2, 3}, {4, 3}}}; counts(k, {2, 3}, {2, 3}); for (auto& o : Shs{{6}, {3}, {2, 3, 1}, {2, 3, 1, 1}, {1, 2, 3}}) { k.bad.push_back({"input " + sstr(o), {o}, {{2, 3}}}); k.bad.push_back({"output " + sstr(o), {{2, 3}}, {o}}); } k.flags = k.early_b = k.early_g = true; fin(k); }
    { Kind k{"BatchNorm2D", [](const Sh& s) { return Lay::make(dw::BatchNorm2D(0.25f, 0.5f, "x"), {s}); }, {{2, 2, 1, 2}, {1, 2, 3, 2}}}; counts(k, {2, 2, 1, 2}, {2, 2, 1, 2}); for (auto& o : Shs{{8}, {4, 2}, {2, 2, 2}, {2, 2, 1, 2, 1}}) { k.bad.push_back({"input " + sstr(o), {o}, {{2, 2, 1, 2}}}); k.bad.push_back({"output " + sstr(o), {{2, 2, 1, 2}}, {o}}); } k.flags = k.early_b = k.early_g = true; fin(k); }
    std::vector<Attr> at; for (int i = 0; i < 2; ++i) { for (int b : {0, -1}) { A a{2, 2}; a[i] = b; at.push_back({"kernel", a}); A s{1, 1}; s[i] = b; at.push_back({"stride", s}); } A p{0, 0}; p[i] = -1; at.push_back({"padding", p}); } // the layers' own bounds
    { Kind k{"Convolution", [](const Sh& s) { return Lay::make(dw::Convolution(2, {2, 2}, {0, 0}, {1, 1}, "x"), {s}); }, {{1, 2, 3, 3}, {2, 2, 3, 2}}}; k.attrs = at; k.early_b = k.early_g = true; fin(k); }
    { Kind k{"MaxPooling", [](const Sh& s) { return Lay::make(dw::MaxPooling({2, 2}, {0, 0}, {1, 1}, "x"), {s}); }, {{1, 2, 3, 3}, {2, 2, 3, 2}}}; k.attrs = at; k.early_b = k.other_go = true; fin(k); }
    return v;
}
// A layer, its latest forward pass, and every number that is visible from outside.
struct Obj {
    const Kind& k; Lay l; std::vector<dw::Tensor> in, o; int s = -1, t = 0;
    explicit Obj(const Kind& k) : k(k), l(k.make(k.shapes[0])) { int q = 0; for (auto n : {"weight", "bias", "gamma", "beta"}) { auto it = l.info.params().find(n); if (it != l.info.params().end()) { setv(it->second.data(), ints(it->second.data().total(), 60 + q++, 4)); setv(it->second.grad(), ints(it->second.grad().total(), 70 + q, 4)); } } }
    std::map<std::string, Vec> seen() const { std::map<std::string, Vec> m; for (auto& kv : l.info.params()) if (kv.first != "mask") { m["value of " + kv.first] = vals(kv.second.data()); if (!kv.second.grad().empty()) m["gradient of " + kv.first] = vals(kv.second.grad()); } for (auto& kv : l.info.buffers()) m[kv.first] = vals(kv.second); return m; }
    std::map<std::string, Vec> forward(int i) { s = i; ++t; in = {mk(k.shapes[i], ints(prod(k.shapes[i]), 100 + 7 * t, 6))}; o = {mk(k.outs[i], Vec(prod(k.outs[i]), NAN))}; l.impl->forward(in, o); auto m = seen(); m["output"] = vals(o[0]); return m; }
    std::map<std::string, Vec> backward() { auto go = mk(k.outs[s], ints(prod(k.outs[s]), 900 + t, 5)), gi = mk(k.shapes[s], ints(prod(k.shapes[s]), 3, 2)); l.params_grad(in, go); l.backward(in, o[0], go, {gi}); auto m = seen(); m["input gradient"] = vals(gi); return m; }
};
void same(vp::Ctx& c, const std::map<std::string, Vec>& a, const std::map<std::string, Vec>& b, const std::string& when) { c.check(a.size() == b.size(), "tensors " + when); for (auto& kv : b) expect_same(c, kv.first + " " + when, a.at(kv.first), kv.second); }
bool mixable(const Kind& k) { return k.flags; }
// how many different misuses there are, and the r-th of them
int count(const Kind& k) { return int(k.bad.size() + k.attrs.size()) + 4 * k.flags + 3 * k.early_b + 2 * k.other_go; }
void misuse(vp::Ctx& c, Obj& x, int r) {
    auto& k = x.k; auto before = x.seen(); bool thrown = false; std::vector<dw::Tensor> given; std::vector<Vec> held; auto give = [&](const Sh& s, int salt) { auto t = mk(s, ints(prod(s), salt, 6)); given.push_back(t); held.push_back(vals(t)); return t; };
    auto call = [&](std::function<void()> f) { c.step(); try { f(); } catch (const std::exception&) { thrown = true; } c.check(thrown, "the call was accepted"); };
    auto forward = [&](const Shs& i, const Shs& o) { std::vector<dw::Tensor> a, b; for (auto& s : i) a.push_back(give(s, 300)); for (auto& s : o) b.push_back(give(s, 400)); call([&] { x.l.impl->forward(a, b); }); c.check(b.size() == o.size(), "the list of outputs changed"); };
    if (r < (int)k.bad.size()) { auto& b = k.bad[r]; c.tell("forward with ", b.what, " is rejected; "); forward(b.in, b.out); }
    else if ((r -= (int)k.bad.size()) < (int)k.attrs.size()) { auto& a = k.attrs[r]; c.tell("a layer on the same parameters with ", a.name, " ", a2s(a.v), " is rejected; "); auto& at = x.l.info.impl().attrs[a.name]; const A old = at.get<A>(); at = A(a.v); std::vector<dw::Tensor> i{give(k.shapes[0], 300)}, o{give(k.outs[0], 400)}; call([&] { auto other = dw::cpu::ICPULayer::create(x.l.info); other->forward(i, o); }); at = A(old); }
    else if ((r -= (int)k.attrs.size()) < 4 * k.flags) { int si = r / 2; const char* n = r % 2 ? "gamma" : "beta"; c.tell("forward ", sstr(k.shapes[si]), " with ", n, " alone frozen is rejected; "); x.l.info.impl().params.at(n).train(false); forward({k.shapes[si]}, {k.outs[si]}); x.l.info.impl().params.at(n).train(true); }
    else if ((r -= 4 * k.flags) < 3 * k.early_b) { // there has been no forward pass
        if (x.s >= 0) return; if (r == 2 || (r == 1 && !k.early_g)) return; auto a = give(k.shapes[0], 1), o = give(k.outs[0], 2), go = give(k.outs[0], 3), gi = give(k.shapes[0], 4); c.tell(r == 0 ? "backward" : "the parameter gradients", " before any forward pass is rejected; ");
        call([&] { if (r == 0) x.l.backward({a}, o, go, {gi}); else x.l.params_grad({a}, go); }); }
    else { r -= 3 * k.early_b; if (x.s < 0) return; int si = 1 - x.s; Sh os = k.outs[si]; if (r) { os = k.outs[x.s]; os[0] += 1; } auto a = give(k.shapes[si], 1), o = give(os, 2), go = give(os, 3); Sh is = k.shapes[r ? x.s : si]; if (r) is[0] += 1; auto gi = give(is, 4); c.tell("backward of ", sstr(os), " after a forward pass to ", sstr(k.outs[x.s]), " is rejected; "); call([&] { x.l.backward({a}, o, go, {gi}); }); }
    same(c, x.seen(), before, "after a rejected call"); for (size_t i = 0; i < given.size(); ++i) expect_same(c, "a tensor given to a rejected call", vals(given[i]), held[i]);
}
}
SCENARIO(histories, 3) {
    auto& k = kinds()[c.choose((int)kinds().size())]; int M = count(k), D = c.thorough() ? 4 : 3; c.tell(k.name, ": "); Obj x(k), y(k); uint64_t st = vp::hash_str(k.name);
    auto f = [&](int i) { c.tell("forward ", sstr(k.shapes[i]), "; "); c.step(); same(c, x.forward(i), y.forward(i), "of a forward pass"); }; auto b = [&] { if (x.s < 0) return; c.tell("backward; "); c.step(); same(c, x.backward(), y.backward(), "of a backward pass"); };
    for (int d = 0; d < D; ++d) { int op = c.choose(3 + M); if (op < 2) f(op); else if (op == 2) b(); else misuse(c, x, op - 3); c.state(st = vp::mix(st, op)); }
    b(); f(0); b(); f(1); b();
}
// every misuse at every point of a longer life
SCENARIO(points, 3) {
    auto& k = kinds()[c.choose((int)kinds().size())]; int r = c.choose(count(k)), at = c.range(0, 9), times = c.pick(std::vector<int>{1, 2, 300}); static const char P[] = "FBfBFfBBF"; c.tell(k.name, ", ", times, "x at point ", at, ": "); Obj x(k), y(k);
    for (int i = 0; i <= 9; ++i) { if (i == at) for (int q = 0; q < times; ++q) misuse(c, x, r); if (i == 9) break; c.step(); if (P[i] == 'B') same(c, x.backward(), y.backward(), "of a backward pass"); else same(c, x.forward(P[i] == 'f'), y.forward(P[i] == 'f'), "of a forward pass"); c.state(vp::mix(vp::mix(vp::hash_str(k.name), r * 16 + at), i)); }
}
