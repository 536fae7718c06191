// C02: shape inference, parameter shapes, initial values, rejection, make_layer equivalence.
#include "dwh.hpp"
#include <map>
#include "expression/call_impl.hpp"
#include "expression/placeholder_impl.hpp"

namespace {
struct Expect { std::string type; Sh out; std::map<std::string, Sh> params, buffers; std::map<std::string, float> init; std::map<std::string, std::string> attrs; };

std::string attr_str(const dw::Attribute& a) {
    if (a.shape() == dw::AttrShape::VALUE) { if (a.type() == dw::AttrType::INT) return "i" + std::to_string(a.get<int>()); if (a.type() == dw::AttrType::FLOAT) return "f" + std::to_string(bits(a.get<float>())); }
    else { if (a.type() == dw::AttrType::INT) { auto v = a.get<A2>(); return "I" + a2s(v); } }
    return "?";
}
std::string fa(float f) { return "f" + std::to_string(bits(f)); }

void verify(vp::Ctx& c, const std::string& how, const dw::Placeholder& ph, const dw::Placeholders& ins, const Expect& e, const std::string& name) {
    c.step();
    c.check(ph.shape() == e.out, how + ": output shape " + sstr(ph.shape()) + " expected " + sstr(e.out));
    c.check(ph.impl().call.has_value(), how + ": no producer recorded");
    auto& ci = ph.impl().call.value().impl();
    const auto& info = ci.info;
    c.check(info.type() == e.type, how + ": type " + info.type());
    c.check(info.name() == name, how + ": name " + info.name());
    c.check(ci.args.size() == ins.size(), how + ": number of inputs");
    for (size_t i = 0; i < ins.size(); ++i) c.check(&ci.args[i].impl() == &ins[i].impl(), how + ": input " + std::to_string(i) + " is another placeholder");
    c.check(info.params().size() == e.params.size(), how + ": " + std::to_string(info.params().size()) + " parameters, expected " + std::to_string(e.params.size()));
    c.check(info.buffers().size() == e.buffers.size(), how + ": " + std::to_string(info.buffers().size()) + " buffers, expected " + std::to_string(e.buffers.size()));
    auto vals_ok = [&](const std::string& n, const dw::Tensor& t) {
        auto it = e.init.find(n);
        for (size_t i = 0; i < t.total(); ++i) {
            if (it != e.init.end()) { if (bits(t.data()[i]) != bits(it->second)) c.fail(how + ": initial value of " + n + " is " + fstr(t.data()[i])); }
            else if (!(std::fabs(t.data()[i]) <= 2.5f)) c.fail(how + ": initial value of " + n + " is " + fstr(t.data()[i]));
        }
    };
    for (auto& kv : e.params) {
        auto it = info.params().find(kv.first);
        c.check(it != info.params().end(), how + ": parameter " + kv.first + " missing");
        c.check(it->second.data().shape() == kv.second, how + ": parameter " + kv.first + " has shape " + sstr(it->second.data().shape()) + " expected " + sstr(kv.second));
        c.check(it->second.grad().shape() == kv.second, how + ": gradient of " + kv.first + " has shape " + sstr(it->second.grad().shape()));
        c.check(it->second.is_trainable(), how + ": parameter " + kv.first + " is frozen");
        vals_ok(kv.first, it->second.data());
    }
    for (auto& kv : e.buffers) {
        auto it = info.buffers().find(kv.first);
        c.check(it != info.buffers().end(), how + ": buffer " + kv.first + " missing");
        c.check(it->second.shape() == kv.second, how + ": buffer " + kv.first + " has shape " + sstr(it->second.shape()));
        vals_ok(kv.first, it->second);
    }
    auto& at = info.impl().attrs;
    c.check(at.size() == e.attrs.size(), how + ": number of attributes");
    for (auto& kv : e.attrs) { auto it = at.find(kv.first); c.check(it != at.end(), how + ": attribute " + kv.first + " missing"); c.check(attr_str(it->second) == kv.second, how + ": attribute " + kv.first + " = " + attr_str(it->second) + " expected " + kv.second); }
}
// apply the op through both call operators and through make_layer
template <typename Mk> void both(vp::Ctx& c, Mk mkop, const std::vector<Sh>& ins, const Expect& e, const std::string& name = "the layer") {
    uint64_t k = vp::hash_str(e.type); for (auto& s : ins) { k = vp::mix(k, 99); for (int d : s) k = vp::mix(k, d); } for (auto& a : e.attrs) k = vp::mix(k, vp::hash_str(a.second));
    c.state(k);
    if (c.telling()) { c.tell(e.type); for (auto& s : ins) c.tell("in=", sstr(s)); for (auto& a : e.attrs) c.tell(a.first, "=", a.second); }
    dw::Placeholders phs; for (auto& s : ins) phs.emplace_back(s);
    auto op = mkop(name);
    dw::Placeholder ph = op(phs);
    verify(c, "direct", ph, phs, e, name);
    auto op2 = mkop(name);
    dw::Placeholder ph2 = [&]() -> dw::Placeholder { if constexpr (decltype(op2)::num_in == 2) return op2(phs[0], phs[1]); else return op2(phs[0]); }();
    verify(c, "direct (placeholder arguments)", ph2, phs, e, name);
    dw::Attributes at = op.m_info.impl().attrs;
    dw::Placeholder ph3 = dw::make_layer(e.type, name, at, phs);
    verify(c, "make_layer", ph3, phs, e, name);
    // the three instances do not share storage
    for (auto& kv : e.params) {
        auto a = ph.impl().call.value().impl().info.params().at(kv.first).data().data(), b = ph3.impl().call.value().impl().info.params().at(kv.first).data().data();
        c.check(kv.second.empty() || a != b, "two layers share parameter " + kv.first);
        c.check(ph.impl().call.value().impl().info.params().at(kv.first).grad().data() != a, "gradient shares storage with parameter " + kv.first);
    }
    for (size_t i = 0; i < ins.size(); ++i) c.check(phs[i].shape() == ins[i], "input placeholder shape changed");
}
template <typename Mk> void rejected(vp::Ctx& c, const std::string& type, Mk mkop, const std::vector<Sh>& ins) {
    dw::Placeholders phs; for (auto& s : ins) phs.emplace_back(s);
    if (c.telling()) { c.tell(type, " must reject"); for (auto& s : ins) c.tell("in=", sstr(s)); }
    uint64_t k = vp::hash_str(type); for (auto& s : ins) { k = vp::mix(k, 98); for (int d : s) k = vp::mix(k, d); } c.state(k);
    auto op = mkop("x");
    bool t = throws([&] { op(phs); });
    c.step();
    c.check(t, type + " accepted " + sstr(ins[0]) + (ins.size() > 1 ? " and " + sstr(ins[1]) : ""));
}
}
using P4 = std::map<std::string, Sh>;

SCENARIO(conv_pool, 4) {
    int M = c.thorough() ? 7 : 5;
    int h = c.range(1, M), w = c.range(1, M);
    A2 k{c.range(1, 3), c.range(1, 3)}, p{c.range(0, 2), c.range(0, 2)}, s{c.range(1, 3), c.range(1, 3)};
    if (h + 2 * p[0] < k[0] || w + 2 * p[1] < k[1]) throw vp::Skip{};
    int variant = (h * 7 + w * 3 + k[0] + p[1] + s[0]) % 3; int n = 1 + variant, ci = 3 - variant, co = 2 + (variant + h) % 3;
    int oh = (h + 2 * p[0] - k[0]) / s[0] + 1, ow = (w + 2 * p[1] - k[1]) / s[1] + 1;
    both(c, [&](std::string nm) { return dw::Convolution(co, k, p, s, nm); }, {{n, ci, h, w}}, {"Convolution", {n, co, oh, ow}, {{"weight", {co, ci, k[0], k[1]}}, {"bias", {co}}}, {}, {{"bias", 0.f}}, {{"out_channels", "i" + std::to_string(co)}, {"kernel", "I" + a2s(k)}, {"padding", "I" + a2s(p)}, {"stride", "I" + a2s(s)}}});
    both(c, [&](std::string nm) { return dw::MaxPooling(k, p, s, nm); }, {{n, ci, h, w}}, {"MaxPooling", {n, ci, oh, ow}, {}, {}, {}, {{"kernel", "I" + a2s(k)}, {"padding", "I" + a2s(p)}, {"stride", "I" + a2s(s)}}});
}
SCENARIO(conv_pool_large, 3) {
    static const std::vector<int> HW = {7, 28, 31, 224}, K = {1, 2, 5, 7, 11}, Pd = {0, 1, 3, 5}, St = {1, 2, 4};
    int h = c.pick(HW), w = c.pick(HW); A2 k{c.pick(K), c.pick(K)}, p{c.pick(Pd), c.pick(Pd)}, s{c.pick(St), c.pick(St)};
    if (h + 2 * p[0] < k[0] || w + 2 * p[1] < k[1]) throw vp::Skip{};
    int n = 3, ci = 2, co = 1 + (h + w + k[0]) % 3;
    int oh = (h + 2 * p[0] - k[0]) / s[0] + 1, ow = (w + 2 * p[1] - k[1]) / s[1] + 1;
    both(c, [&](std::string nm) { return dw::Convolution(co, k, p, s, nm); }, {{n, ci, h, w}}, {"Convolution", {n, co, oh, ow}, {{"weight", {co, ci, k[0], k[1]}}, {"bias", {co}}}, {}, {{"bias", 0.f}}, {{"out_channels", "i" + std::to_string(co)}, {"kernel", "I" + a2s(k)}, {"padding", "I" + a2s(p)}, {"stride", "I" + a2s(s)}}});
    both(c, [&](std::string nm) { return dw::MaxPooling(k, p, s, nm); }, {{n, ci, h, w}}, {"MaxPooling", {n, ci, oh, ow}, {}, {}, {}, {{"kernel", "I" + a2s(k)}, {"padding", "I" + a2s(p)}, {"stride", "I" + a2s(s)}}});
}
static void others(vp::Ctx& c, int which, const Sh& s) {
    int rank = (int)s.size();
    static const std::vector<float> F = {0.1f, 0.f, 1.f, 0.9f, 1e-5f, -2.5f};
    size_t feats = 1; for (int i = 1; i < rank; ++i) feats *= s[i];
    Sh c1{rank > 1 ? s[1] : 1};
    std::string nm = (rank % 2) ? "n" : "";
    switch (which) {
    case 0: for (int u : {1, 2, 7, 33}) { auto mk = [&](std::string n) { return dw::Linear(u, n); };
        if (rank == 1) rejected(c, "Linear", mk, {s}); else both(c, mk, {s}, {"Linear", {s[0], u}, {{"weight", {u, (int)feats}}, {"bias", {u}}}, {}, {{"bias", 0.f}}, {{"units", "i" + std::to_string(u)}}}, nm); } break;
    case 1: both(c, [&](std::string n) { return dw::ReLU(n); }, {s}, {"ReLU", s, {}, {}, {}, {}}, nm); break;
    case 2: both(c, [&](std::string n) { return dw::Sigmoid(n); }, {s}, {"Sigmoid", s, {}, {}, {}, {}}, nm); break;
    case 3: both(c, [&](std::string n) { return dw::Softmax(n); }, {s}, {"Softmax", s, {}, {}, {}, {}}, nm); break;
    case 4: for (float a : F) both(c, [&](std::string n) { return dw::ELU(a, n); }, {s}, {"ELU", s, {}, {}, {}, {{"alpha", fa(a)}}}, nm); break;
    case 5: for (float a : F) both(c, [&](std::string n) { return dw::LeakyReLU(a, n); }, {s}, {"LeakyReLU", s, {}, {}, {}, {{"alpha", fa(a)}}}, nm); break;
    case 6: for (float a : F) if (a >= 0 && a < 1) both(c, [&](std::string n) { return dw::Dropout(a, n); }, {s}, {"Dropout", s, {{"mask", s}}, {}, {{"mask", 0.f}}, {{"p", fa(a)}}}, nm); break;
    case 7: if (rank == 2) for (float a : F) for (float e : F) both(c, [&](std::string n) { return dw::BatchNorm1D(e, a, n); }, {s}, {"BatchNorm1D", s, {{"gamma", c1}, {"beta", c1}}, {{"running_mean", c1}, {"running_var", c1}}, {{"gamma", 1.f}, {"beta", 0.f}, {"running_mean", 0.f}, {"running_var", 0.f}}, {{"eps", fa(e)}, {"alpha", fa(a)}}}, nm); break;
    case 8: if (rank == 4) for (float a : F) for (float e : F) both(c, [&](std::string n) { return dw::BatchNorm2D(e, a, n); }, {s}, {"BatchNorm2D", s, {{"gamma", c1}, {"beta", c1}}, {{"running_mean", c1}, {"running_var", c1}}, {{"gamma", 1.f}, {"beta", 0.f}, {"running_mean", 0.f}, {"running_var", 0.f}}, {{"eps", fa(e)}, {"alpha", fa(a)}}}, nm);
            else rejected(c, "BatchNorm2D", [&](std::string n) { return dw::BatchNorm2D(1e-5f, 0.1f, n); }, {s}); break;
    case 9: if (rank == 4) both(c, [&](std::string n) { return dw::GlobalAvgPooling(n); }, {s}, {"GlobalAvgPooling", {s[0], s[1], 1, 1}, {}, {}, {}, {}}, nm);
            else rejected(c, "GlobalAvgPooling", [&](std::string n) { return dw::GlobalAvgPooling(n); }, {s}); break;
    case 10: both(c, [&](std::string n) { return dw::Add(n); }, {s, s}, {"Add", s, {}, {}, {}, {}}, nm);
             if (rank != 4) rejected(c, "Convolution", [&](std::string n) { return dw::Convolution(2, {1, 1}, {0, 0}, {1, 1}, n); }, {s});
             if (rank != 4) rejected(c, "MaxPooling", [&](std::string n) { return dw::MaxPooling({1, 1}, {0, 0}, {1, 1}, n); }, {s});
             break;
    }
}
SCENARIO(others, 2) { int which = c.choose(11); int rank = c.range(1, 5); Sh s(rank); for (auto& d : s) d = c.pick(std::vector<int>{1, 2, 3, 5}); others(c, which, s); }
SCENARIO(high_ranks, 3) { int which = c.choose(11); int rank = c.range(6, c.thorough() ? 8 : 7); Sh s(rank); for (auto& d : s) d = c.range(1, rank == 6 && c.thorough() ? 3 : 2); others(c, which, s); }
SCENARIO(big_dims, 2) { // one large dimension, in every position
    static const std::vector<int> B = {63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 40000, 65535, 65536, 65537};
    int which = c.choose(11); int b = c.pick(B), rank = c.range(1, 4), at = c.choose(4); if (at >= rank) throw vp::Skip{}; Sh s(rank, 2); s[at] = b; others(c, which, s);
    if (which == 0 && rank == 2 && at == 0) { both(c, [&](std::string n) { return dw::Linear(b, n); }, {{2, 3}}, {"Linear", {2, b}, {{"weight", {b, 3}}, {"bias", {b}}}, {}, {{"bias", 0.f}}, {{"units", "i" + std::to_string(b)}}}, "n"); if (b <= 4097) both(c, [&](std::string nm) { return dw::Convolution(b, {2, 1}, {0, 1}, {1, 2}, nm); }, {{2, 3, 4, 5}}, {"Convolution", {2, b, 3, 4}, {{"weight", {b, 3, 2, 1}}, {"bias", {b}}}, {}, {{"bias", 0.f}}, {{"out_channels", "i" + std::to_string(b)}, {"kernel", "I{2,1}"}, {"padding", "I{0,1}"}, {"stride", "I{1,2}"}}}); }
    if (which == 1 && rank == 4) { A2 k{3, 2}, p{1, 0}, st{2, 3}; Sh q = s; q[2] = (s[2] + 2 - 3) / 2 + 1; q[3] = (s[3] - 2) / 3 + 1; Sh cv = q; cv[1] = 2; std::string ks = "I" + a2s(k), ps = "I" + a2s(p), ss = "I" + a2s(st);
        both(c, [&](std::string nm) { return dw::MaxPooling(k, p, st, nm); }, {s}, {"MaxPooling", q, {}, {}, {}, {{"kernel", ks}, {"padding", ps}, {"stride", ss}}});
        both(c, [&](std::string nm) { return dw::Convolution(2, k, p, st, nm); }, {s}, {"Convolution", cv, {{"weight", {2, s[1], 3, 2}}, {"bias", {2}}}, {}, {{"bias", 0.f}}, {{"out_channels", "i2"}, {"kernel", ks}, {"padding", ps}, {"stride", ss}}}); }
}
SCENARIO(defaults, 1) { // documented default arguments
    int which = c.choose(2); Sh s{2, 3, 4, 5}; if (which == 0) s = {2, 3};
    Sh c1{3}; Expect e{which ? "BatchNorm2D" : "BatchNorm1D", s, {{"gamma", c1}, {"beta", c1}}, {{"running_mean", c1}, {"running_var", c1}}, {{"gamma", 1.f}, {"beta", 0.f}, {"running_mean", 0.f}, {"running_var", 0.f}}, {{"eps", fa(1e-5f)}, {"alpha", fa(0.1f)}}};
    c.tell(e.type, " default arguments"); c.state(which);
    dw::Placeholders in{dw::Placeholder(s)};
    if (which) { dw::BatchNorm2D op; auto ph = op(in); verify(c, "defaults", ph, in, e, ""); } else { dw::BatchNorm1D op; auto ph = op(in); verify(c, "defaults", ph, in, e, ""); }
}
SCENARIO(add_pairs, 3) {
    auto shape = [&] { int r = c.range(1, 4);  Sh s(r); for (auto& d : s) d = c.pick(std::vector<int>{1, 2, 3}); return s; };
    Sh a = shape(), b = shape();
    auto mkop = [&](std::string n) { return dw::Add(n); };
    if (a == b) both(c, mkop, {a, b}, {"Add", a, {}, {}, {}, {}}); else rejected(c, "Add", mkop, {a, b});
}
SCENARIO(unknown_type, 1) {
    static const std::vector<std::string> N = {"", "linear", "Linear ", "RELU", "Conv", "BatchNorm", "BatchNorm3D", "AvgPooling", "Sub", "Input", "Placeholder", "Softmax2", "Relu"};
    auto n = c.pick(N); c.tell("make_layer ", n); c.state(vp::hash_str(n)); c.step();
    dw::Placeholders in{dw::Placeholder(Sh{2, 3, 4, 4}), dw::Placeholder(Sh{2, 3, 4, 4})};
    dw::Attributes at; at["units"] = 3; at["alpha"] = 0.5f; at["eps"] = 0.5f; at["p"] = 0.5f;
    c.check(throws([&] { dw::make_layer(n, "x", at, in); }), "make_layer accepted unknown type '" + n + "'");
}
