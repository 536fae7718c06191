// C37: printing a tensor or a shape shows every element, in order, and changes nothing.
#include "dwh.hpp"
#include <iomanip>
#include <deepworks/shape.hpp>
namespace {
struct Fmt { const char* name; std::function<void(std::ostream&)> set; };
const std::vector<Fmt>& fmts() { static const std::vector<Fmt> f = {{"default", [](std::ostream&) {}}, {"precision 2", [](std::ostream& o) { o << std::setprecision(2); }}, {"fixed", [](std::ostream& o) { o << std::fixed << std::setprecision(4); }}, {"scientific", [](std::ostream& o) { o << std::scientific << std::showpos; }}, {"hexfloat", [](std::ostream& o) { o << std::hexfloat; }}, {"max precision", [](std::ostream& o) { o << std::setprecision(17) << std::showpoint; }}}; return f; }
std::string expect(const Vec& v, const Fmt& f) { std::ostringstream o; f.set(o); o << "<"; if (v.empty()) o << "[ ]"; else { o << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ", "; o << v[i]; } o << "]"; } o << ">"; return o.str(); }
void check(vp::Ctx& c, const dw::Tensor& t, const Vec& v, const Sh& s) {
    for (auto& f : fmts()) { std::ostringstream o; f.set(o); auto flags = o.flags(); auto prec = o.precision(); o << "<" << t << ">"; c.step(); std::string e = expect(v, f); if (o.str() != e) c.fail("printed (" + std::string(f.name) + ") " + o.str().substr(0, 300) + " expected " + e.substr(0, 300)); if (o.flags() != flags || o.precision() != prec || !o) c.fail("printing changed the state of the stream"); }
    if (t.shape() != s || !same_bits(vals(t), v)) c.fail("printing changed the tensor");
}
const std::vector<float> V = {0.f, -0.f, 1.f, -2.5f, 1e-7f, 123456.f, 1234567.f, 3.4e38f, 1e-45f, INFINITY, -INFINITY, 0.1f, -1e20f};
}
SCENARIO(values, 2) { int n = c.range(0, c.thorough() ? 4 : 3); Vec v(n); for (auto& x : v) x = c.pick(V); Sh s{n}; c.state(hv(v)); dw::Tensor t = n ? mk(s, v) : dw::Tensor(); c.tell(n, " elements"); check(c, t, v, n ? s : t.shape()); }
SCENARIO(shapes, 2) { int r = c.range(1, 5); Sh s(r); for (auto& d : s) d = c.range(0, r <= 3 ? 4 : 2); c.tell(sstr(s)); c.state(vp::hash_str(sstr(s))); Vec v = gen(prod(s), [](size_t i) { return V[i % V.size()]; }); dw::Tensor t = mk(s, v); check(c, t, v, s); Vec buf = v; if (prod(s)) { dw::Tensor w(s, buf.data()); check(c, w, v, s); dw::Tensor h = w; check(c, h, v, s); } }
SCENARIO(lengths, 1) { int n = c.range(1, 140); Sh s{n < 130 ? n : n == 140 ? 140001 : (n - 128) * 997}; c.tell(sstr(s)); c.state(vp::hash_str(sstr(s))); Vec v = gen(prod(s), [](size_t i) { return double(i) * 0.25 - 3; }); check(c, mk(s, v), v, s); }
// shapes
SCENARIO(shape_text, 2) { int r = c.range(0, 5); Sh s(r); for (auto& d : s) d = c.pick(std::vector<int>{0, 1, -1, 10, 2147483647}); c.tell(sstr(s)); c.state(vp::mix(vp::hash_str(sstr(s)), 5)); std::ostringstream o, e; o << "<"; ::operator<<(o, s); o << ">"; e << "<{"; if (s.empty()) e << " "; for (size_t i = 0; i < s.size(); ++i) e << (i ? ", " : "") << s[i]; e << "}>"; c.step(); if (o.str() != e.str()) c.fail("printed " + o.str() + " expected " + e.str()); }
// longer sequences of printing into one stream
SCENARIO(sequence, 2) { std::vector<dw::Tensor> ts{dw::Tensor(), mk({2}, {1, 2}), mk({1, 1}, {-3}), mk({2, 0}, {})}; std::vector<Vec> vs{{}, {1, 2}, {-3}, {}}; std::ostringstream o, e; for (int d = 0; d < 4; ++d) { int i = c.choose(4); o << ts[i]; e << "["; if (vs[i].empty()) e << " "; for (size_t k = 0; k < vs[i].size(); ++k) e << (k ? ", " : "") << vs[i][k]; e << "]"; c.step(); c.state(vp::hash_str(e.str())); if (o.str() != e.str()) c.fail("printed " + o.str() + " expected " + e.str()); } }
