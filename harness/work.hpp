// The computations that C14 runs on teams of threads and C41 beside each other.
#pragma once
#include "dwh.hpp"
#include "ds.hpp"
#include "sched.hpp"
#include "zoo.hpp"
#include <deepworks/initializers.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/utils/utils.hpp>
#include <map>
namespace work {
using Out = std::vector<std::pair<std::string, Vec>>;
struct Case { std::string name; std::function<Out()> run; double tol; int size; }; // size 0 tiny, 1 small, 2 large
inline std::vector<Case>& cases() {
    static std::vector<Case> v; if (!v.empty()) return v;
    auto put = [](Out& o, const std::string& n, const dw::Tensor& t) { o.push_back({n, vals(t)}); };
    auto layer = [&](const std::string& n, std::function<Lay(const Sh&)> mkl, const Sh& s, bool two, double tol, int size) {
        v.push_back({n + " " + sstr(s), [=] {
            Lay l = mkl(s); int q = 0; for (auto& kv : l.info.impl().params) setv(kv.second.data(), ints(kv.second.data().total(), 60 + q++, 3)); Out o;
            for (int train = 1; train >= 0; --train) {
                l.train(train); std::vector<dw::Tensor> in{mk(s, ints(prod(s), 7, 6))}; if (two) in.push_back(mk(s, ints(prod(s), 8, 6)));
                for (auto& t : in) sched::label(t.data(), t.total() * 4, "the input");
                std::vector<dw::Tensor> out{mk(l.out, Vec(prod(l.out), NAN))}; sched::label(out[0].data(), out[0].total() * 4, "the output"); l.impl->forward(in, out); put(o, "output", out[0]);
                if (!train) break; 
                auto go = mk(l.out, ints(prod(l.out), 9, 4)); sched::label(go.data(), go.total() * 4, "the output gradient"); for (auto& kv : l.info.params()) sched::label(kv.second.grad().data(), kv.second.grad().total() * 4, ("the gradient of " + kv.first).c_str());
                l.params_grad(in, go); for (auto& kv : l.info.params()) put(o, "gradient of " + kv.first, kv.second.grad());
                std::vector<dw::Tensor> gi; for (auto& t : in) { gi.push_back(mk(s, ints(t.total(), 11 + (int)gi.size(), 2))); sched::label(gi.back().data(), gi.back().total() * 4, "the input gradient"); }
                l.backward(in, out[0], go, gi); for (auto& g : gi) put(o, "input gradient", g);
            }
            for (auto& kv : l.info.buffers()) put(o, kv.first, kv.second);
            return o; }, tol, size});
    };
    auto L = [&](const std::string& n, auto mkop, const std::vector<std::pair<Sh, int>>& ss, double tol, bool two = false) { for (auto& s : ss) layer(n, [mkop, two](const Sh& s) { return two ? Lay::make(mkop(), {s, s}) : Lay::make(mkop(), {s}); }, s.first, two, tol, s.second); };
    // convolution: batches below, at and above the team size; overlapping windows; padding; several channels
    L("Convolution(1,k1)", [] { return dw::Convolution(1, {1, 1}, {0, 0}, {1, 1}, "x"); }, {{{2, 1, 1, 2}, 0}, {{3, 1, 1, 1}, 0}, {{5, 2, 2, 2}, 1}}, 0);
    L("Convolution(2,k2,p1)", [] { return dw::Convolution(2, {2, 2}, {1, 1}, {1, 1}, "x"); }, {{{1, 1, 1, 1}, 0}, {{2, 1, 1, 2}, 0}, {{2, 2, 3, 3}, 1}, {{3, 2, 2, 3}, 1}, {{4, 1, 2, 2}, 1}, {{7, 2, 4, 3}, 1}, {{9, 2, 5, 5}, 2}, {{16, 3, 8, 8}, 2}}, 0);
    L("Convolution(3,k3x2,p1x0,s2x1)", [] { return dw::Convolution(3, {3, 2}, {1, 0}, {2, 1}, "x"); }, {{{2, 1, 2, 2}, 0}, {{4, 2, 5, 4}, 1}, {{8, 2, 9, 7}, 2}, {{33, 1, 4, 3}, 2}}, 0);
    L("Convolution(16,k3,p1)", [] { return dw::Convolution(16, {3, 3}, {1, 1}, {1, 1}, "x"); }, {{{4, 8, 12, 12}, 2}}, 0);
    std::vector<std::pair<Sh, int>> E = {{{2}, 0}, {{2, 2}, 0}, {{3, 3}, 1}, {{2, 3, 2, 2}, 1}, {{4, 5, 3}, 1}, {{70001}, 2}, {{40, 3, 32, 32}, 2}, {{100, 50}, 2}};
    L("Add", [] { return dw::Add("x"); }, E, 0, true);
    L("ReLU", [] { return dw::ReLU("x"); }, E, 0); L("LeakyReLU", [] { return dw::LeakyReLU(0.25f, "x"); }, E, 0); L("ELU", [] { return dw::ELU(0.5f, "x"); }, E, 1e-6); L("Sigmoid", [] { return dw::Sigmoid("x"); }, E, 1e-6);
    L("Dropout", [] { return dw::Dropout(0.5f, "x"); }, {{{2, 2}, 0}, {{3, 5}, 1}, {{40, 30}, 2}}, 0);
    L("Softmax", [] { return dw::Softmax("x"); }, {{{2, 2}, 0}, {{3, 4}, 1}, {{5, 3}, 1}, {{130, 20}, 2}, {{2, 3000}, 2}}, 1e-5);
    L("Linear(2)", [] { return dw::Linear(2, "x"); }, {{{2, 2}, 0}, {{3, 4}, 1}, {{5, 2, 3}, 1}, {{64, 40}, 2}}, 0);
    L("Linear(64)", [] { return dw::Linear(64, "x"); }, {{{64, 48}, 2}}, 0);
    L("BatchNorm1D", [] { return dw::BatchNorm1D(0.25f, 0.5f, "x"); }, {{{2, 2}, 0}, {{3, 4}, 1}, {{8, 5}, 1}, {{64, 70}, 2}}, 1e-5);
    L("BatchNorm2D", [] { return dw::BatchNorm2D(0.25f, 0.5f, "x"); }, {{{2, 2, 1, 1}, 0}, {{2, 3, 2, 2}, 1}, {{4, 2, 3, 2}, 1}, {{16, 8, 8, 8}, 2}}, 1e-5);
    L("MaxPooling(k2)", [] { return dw::MaxPooling({2, 2}, {0, 0}, {1, 1}, "x"); }, {{{2, 1, 2, 2}, 0}, {{2, 2, 2, 3}, 0}, {{3, 2, 3, 3}, 1}, {{4, 3, 4, 3}, 1}, {{8, 8, 9, 9}, 2}}, 0);
    L("MaxPooling(k3x2,p1,s2x1)", [] { return dw::MaxPooling({3, 2}, {1, 1}, {2, 1}, "x"); }, {{{2, 2, 3, 3}, 1}, {{5, 1, 4, 3}, 1}}, 0);
    L("GlobalAvgPooling", [] { return dw::GlobalAvgPooling("x"); }, {{{2, 2, 1, 2}, 0}, {{2, 2, 2, 2}, 1}, {{5, 3, 2, 4}, 1}, {{16, 16, 8, 8}, 2}}, 0);
    auto F = [&](const std::string& n, std::function<Out()> f, double tol, int size) { v.push_back({n, f, tol, size}); };
    for (auto ns : std::vector<std::pair<int, int>>{{2, 0}, {5, 1}, {300, 2}}) { int n = ns.first, sz = ns.second; std::string N = " batch " + std::to_string(n);
        F("CrossEntropyLoss" + N, [=] { Out o; dw::loss::CrossEntropyLoss l; auto p = mk({n, 4}, gen(n * 4, [](size_t i) { return double(1 + i % 7) / 8; })), t = mk({n, 1}, gen(n, [](size_t i) { return double(i * 3 % 4); })); o.push_back({"loss", {l.forward(p, t)}}); dw::Tensor g = mk({n, 4}, Vec(n * 4, 5.f)); l.backward(p, t, g); put(o, "gradient", g); return o; }, 1e-5, sz);
        F("metrics" + N, [=] { Out o; auto p = mk({n, 3}, ints(n * 3, 4, 50)), t = mk({n, 1}, gen(n, [](size_t i) { return double(i % 3); })); Vec oh(n * 3); for (int i = 0; i < n; ++i) oh[i * 3 + i % 3] = 1; o.push_back({"accuracy", {dw::metric::accuracy(p, t), dw::metric::accuracyOneHot(p, mk({n, 3}, oh))}}); return o; }, 1e-6, sz);
        F("layout conversion" + N, [=] { Out o; auto a = mk({n, 2, 2, 3}, ints(n * 12, 4, 50)); dw::Tensor b(Sh{n, 2, 3, 2}), d(Sh{n, 2, 2, 3}); dw::utils::NCHW2NHWC(a, b); put(o, "NHWC", b); dw::utils::NHWC2NCHW(b, d); put(o, "NCHW", d); return o; }, 0, sz);
        F("initializers" + N, [=] { Out o; dw::Tensor a(Sh{n, 3}); dw::initializer::zeros(a); put(o, "zeros", a); dw::initializer::constant(a, 3); put(o, "constant", a); dw::initializer::uniform(a, -1, 2); put(o, "uniform", a); dw::initializer::xavierUniform(a); put(o, "xavierUniform", a); a = dw::Tensor::zeros({n, 2}); put(o, "Tensor::zeros", a); a = dw::Tensor::constant({n, 2}, 4.f); put(o, "Tensor::constant", a); dw::Tensor b(a.shape()); a.copyTo(b); put(o, "copyTo", b); return o; }, 0, sz);
        F("data loader" + N, [=] { Out o; auto ds = std::make_shared<DS>(n + 1, Sh{2}, Sh{1}); dw::DataLoader l(ds, std::max(2, n / 2), false); dw::Tensor X, y; for (int i = 0; i < 3; ++i) { bool r = l.pull(X, y); o.push_back({"result", {float(r)}}); if (r) { put(o, "X", X); put(o, "y", y); } } return o; }, 0, sz);
        for (int k = 0; k < 3; ++k) F(std::string(k == 0 ? "SGD" : k == 1 ? "SGDMomentum" : "Adam") + N, [=] { Out o; dw::ParamMap ps; for (int i = 0; i < 3; ++i) ps.emplace("p" + std::to_string(i), dw::Parameter(mk({n, 2}, ints(n * 2, i, 4)), i != 1)); auto go = [&](auto& opt) { for (int s = 0; s < 2; ++s) { for (auto& kv : ps) setv(kv.second.grad(), ints(n * 2, 20 + s, 3)); opt.step(); } }; if (k == 0) { dw::optimizer::SGD p(ps, 0.5f); go(p); } else if (k == 1) { dw::optimizer::SGDMomentum p(ps, 0.5f, 0.25f); go(p); } else { dw::optimizer::Adam p(ps, 0.5f); go(p); } for (auto& kv : ps) put(o, kv.first, kv.second.data()); return o; }, 1e-6, sz);
    }
    auto M = [&](const std::string& n, std::function<dw::Placeholder(const dw::Placeholder&)> f, const Sh& s, double tol, int sz) {
        v.push_back({"model " + n + " " + sstr(s), [=] { Out o; dw::Placeholder in(s); auto ph = f(in); dw::Model m(in, ph); m.compile(); zoo::randomize(m, 3); m.train(true);
            for (int step = 0; step < 2; ++step) { auto x = mk(s, ints(prod(s), 4 + step, 3)); dw::Tensor y(ph.shape()); m.forward(x, y); put(o, "output", y); m.backward(x, y, mk(ph.shape(), ints(prod(ph.shape()), 5 + step, 2))); std::map<std::string, dw::Tensor> g; for (auto& kv : m.params()) { g.emplace(kv.first, kv.second.grad()); } for (auto& kv : g) put(o, "gradient of " + kv.first, kv.second); dw::optimizer::SGD opt(m.params(), 0.5f); opt.step(); } return o; }, tol, sz});
    };
    auto conv = [](int k, const std::string& n) { return dw::Convolution(k, {2, 2}, {1, 1}, {1, 1}, n); };
    M("residual", [=](const dw::Placeholder& x) { return dw::Add("a")(dw::ReLU("r")(x), x); }, {2, 2}, 0, 0);
    M("Convolution with fan-out", [=](const dw::Placeholder& x) { auto a = dw::Convolution(1, {1, 1}, {0, 0}, {1, 1}, "c")(x); return dw::Add("s")(dw::ReLU("r")(a), a); }, {2, 1, 1, 2}, 0, 0);
    M("two branches", [=](const dw::Placeholder& x) { auto a = conv(2, "c0")(x); auto b = conv(2, "c1")(x); return dw::Linear(2, "l")(dw::Add("s")(dw::ReLU("r")(a), b)); }, {3, 1, 2, 2}, 0, 1);
    M("convolution chain", [=](const dw::Placeholder& x) { auto a = dw::BatchNorm2D(0.25f, 0.5f, "b")(conv(2, "c0")(x)); auto b = dw::MaxPooling({2, 2}, {0, 0}, {1, 1}, "p")(dw::ReLU("r")(a)); return dw::Softmax("s")(dw::Linear(3, "l")(dw::GlobalAvgPooling("g")(conv(2, "c1")(b)))); }, {4, 1, 3, 3}, 1e-4, 1);
    return v;
}
}
