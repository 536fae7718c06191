// Independent reference semantics (plain loops, double precision).
#pragma once
#include "dwh.hpp"

using D = std::vector<double>;
inline D dvec(const Vec& v) { return D(v.begin(), v.end()); }

namespace ref {
struct Geo { int n, ci, h, w, co; A2 k, p, s; int oh() const { return (h + 2 * p[0] - k[0]) / s[0] + 1; } int ow() const { return (w + 2 * p[1] - k[1]) / s[1] + 1; }
    bool fits() const { return h + 2 * p[0] >= k[0] && w + 2 * p[1] >= k[1]; }
    Sh in() const { return {n, ci, h, w}; } Sh out() const { return {n, co, oh(), ow()}; } Sh wt() const { return {co, ci, k[0], k[1]}; }
    std::string str() const { return "in=" + sstr(in()) + " out_channels=" + std::to_string(co) + " kernel=" + a2s(k) + " padding=" + a2s(p) + " stride=" + a2s(s); } };
// a configuration and those that differ from it in one dimension or attribute
inline std::vector<Geo> neighbours(Geo b, bool channels) {
    std::vector<Geo> v{b}; auto add = [&](auto f) { Geo g = b; f(g); if (!channels) g.co = g.ci; v.push_back(g); };
    add([](Geo& g) { g.n = g.n == 1 ? 3 : 1; }); add([](Geo& g) { g.ci += 1; }); add([](Geo& g) { g.h -= 1; }); add([](Geo& g) { g.w += 1; }); if (channels) add([](Geo& g) { g.co += 1; });
    for (int d = 0; d < 2; ++d) { add([&](Geo& g) { g.k[d] += 1; }); add([&](Geo& g) { g.p[d] = g.p[d] ? 0 : 1; }); add([&](Geo& g) { g.s[d] = g.s[d] == 1 ? 2 : 1; }); }
    return v;
}
// calls f(out index, weight index, input index) for every in-range tap
template <typename F> void taps(const Geo& g, F f) {
    int OH = g.oh(), OW = g.ow();
    for (int b = 0; b < g.n; ++b) for (int o = 0; o < g.co; ++o) for (int y = 0; y < OH; ++y) for (int x = 0; x < OW; ++x)
        for (int c = 0; c < g.ci; ++c) for (int i = 0; i < g.k[0]; ++i) for (int j = 0; j < g.k[1]; ++j) {
            int r = y * g.s[0] - g.p[0] + i, q = x * g.s[1] - g.p[1] + j;
            if (r < 0 || r >= g.h || q < 0 || q >= g.w) continue;
            f(((b * g.co + o) * OH + y) * OW + x, ((o * g.ci + c) * g.k[0] + i) * g.k[1] + j, ((b * g.ci + c) * g.h + r) * g.w + q);
        }
}
inline D conv(const Geo& g, const Vec& x, const Vec& w, const Vec& b) {
    D y(prod(g.out()));
    int pl = g.oh() * g.ow();
    for (size_t i = 0; i < y.size(); ++i) y[i] = b[(i / pl) % g.co];
    taps(g, [&](int o, int wi, int xi) { y[o] += double(w[wi]) * x[xi]; });
    return y;
}
template <typename G> D conv_gx(const Geo& g, const Vec& w, const G& go) { D r(prod(g.in())); taps(g, [&](int o, int wi, int xi) { r[xi] += double(w[wi]) * go[o]; }); return r; }
template <typename G> D conv_gw(const Geo& g, const Vec& x, const G& go) { D r(prod(g.wt())); taps(g, [&](int o, int wi, int xi) { r[wi] += double(x[xi]) * go[o]; }); return r; }
template <typename G> D conv_gb(const Geo& g, const G& go) { D r(g.co); int pl = g.oh() * g.ow(); for (size_t i = 0; i < go.size(); ++i) r[(i / pl) % g.co] += go[i]; return r; }

// Linear: x [n, f], W [u, f]
inline D linear(int n, int f, int u, const Vec& x, const Vec& W, const Vec& b) { D y(n * u); for (int i = 0; i < n; ++i) for (int j = 0; j < u; ++j) { double s = b[j]; for (int k = 0; k < f; ++k) s += double(x[i * f + k]) * W[j * f + k]; y[i * u + j] = s; } return y; }
template <typename G> D linear_gx(int n, int f, int u, const Vec& W, const G& go) { D r(n * f); for (int i = 0; i < n; ++i) for (int j = 0; j < u; ++j) for (int k = 0; k < f; ++k) r[i * f + k] += double(W[j * f + k]) * go[i * u + j]; return r; }
template <typename G> D linear_gw(int n, int f, int u, const Vec& x, const G& go) { D r(u * f); for (int i = 0; i < n; ++i) for (int j = 0; j < u; ++j) for (int k = 0; k < f; ++k) r[j * f + k] += double(x[i * f + k]) * go[i * u + j]; return r; }
template <typename G> D linear_gb(int n, int u, const G& go) { D r(u); for (int i = 0; i < n; ++i) for (int j = 0; j < u; ++j) r[j] += go[i * u + j]; return r; }

// BatchNorm: element index -> feature
struct BN { int n, c, pl; // pl = H*W (1 for 1-D)
    int feat(size_t i) const { return int((i / pl) % c); } double cnt() const { return double(n) * pl; } size_t total() const { return size_t(n) * c * pl; } };
struct BNS { D mean, var; };
template <typename X> BNS bn_stats(const BN& g, const X& x) {
    BNS s{D(g.c), D(g.c)};
    for (size_t i = 0; i < g.total(); ++i) s.mean[g.feat(i)] += x[i] / g.cnt();
    for (size_t i = 0; i < g.total(); ++i) { double d = x[i] - s.mean[g.feat(i)]; s.var[g.feat(i)] += d * d / g.cnt(); }
    return s;
}
template <typename X, typename GM> D bn(const BN& g, const X& x, const BNS& s, const GM& gamma, const GM& beta, double eps) {
    D y(g.total());
    for (size_t i = 0; i < y.size(); ++i) { int f = g.feat(i); y[i] = gamma[f] * (x[i] - s.mean[f]) / std::sqrt(s.var[f] + eps) + beta[f]; }
    return y;
}
template <typename X, typename GM, typename G> D bn_gx(const BN& g, const X& x, const BNS& s, const GM& gamma, double eps, const G& go) {
    D r(g.total()), sg(g.c), sgx(g.c);
    auto xh = [&](size_t i) { int f = g.feat(i); return (x[i] - s.mean[f]) / std::sqrt(s.var[f] + eps); };
    for (size_t i = 0; i < r.size(); ++i) { sg[g.feat(i)] += go[i]; sgx[g.feat(i)] += go[i] * xh(i); }
    for (size_t i = 0; i < r.size(); ++i) { int f = g.feat(i); r[i] = gamma[f] / std::sqrt(s.var[f] + eps) * (go[i] - sg[f] / g.cnt() - xh(i) * sgx[f] / g.cnt()); }
    return r;
}
template <typename X, typename G> D bn_ggamma(const BN& g, const X& x, const BNS& s, double eps, const G& go) { D r(g.c); for (size_t i = 0; i < g.total(); ++i) { int f = g.feat(i); r[f] += go[i] * (x[i] - s.mean[f]) / std::sqrt(s.var[f] + eps); } return r; }
template <typename G> D bn_gbeta(const BN& g, const G& go) { D r(g.c); for (size_t i = 0; i < g.total(); ++i) r[g.feat(i)] += go[i]; return r; }

template <typename X> D softmax(int n, int k, const X& x) { D y(n * k); for (int i = 0; i < n; ++i) { double m = -INFINITY, s = 0; for (int j = 0; j < k; ++j) m = std::max(m, double(x[i * k + j])); for (int j = 0; j < k; ++j) s += std::exp(x[i * k + j] - m); for (int j = 0; j < k; ++j) y[i * k + j] = std::exp(x[i * k + j] - m) / s; } return y; }
template <typename Y, typename G> D softmax_gx(int n, int k, const Y& y, const G& go) { D r(n * k); for (int i = 0; i < n; ++i) { double d = 0; for (int j = 0; j < k; ++j) d += double(y[i * k + j]) * go[i * k + j]; for (int j = 0; j < k; ++j) r[i * k + j] = y[i * k + j] * (go[i * k + j] - d); } return r; }
} // namespace ref
