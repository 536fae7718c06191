// C40: errors carry their place and their whole message, however they travel.
#include "dwh.hpp"
#include <deepworks/utils/assert.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/nn.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/loss.hpp>
#include <exception>
#include <thread>
#include <iomanip>
using E = dw::utils::DeepWorksException;
static const int KINDS = 11;
static const std::string LONG(5000, 'x');
struct Opaque { int v; }; static std::ostream& operator<<(std::ostream& o, const Opaque& q) { return o << '<' << q.v << '>'; }
template <typename S> static void put(S& e, int k) {
    switch (k) { case 0: e << 42; break; case 1: e << -1.5; break; case 2: e << "text"; break; case 3: e << std::string("a b\nc"); break; case 4: e << dw::Shape{2, 3}; break; case 5: e << 'c'; break; case 6: e << std::string(); break; case 7: e << std::string("n\0l", 3); break; case 8: e << LONG; break; case 9: e << Opaque{7}; break; default: e << size_t(1) << true << nullptr_t{}; }
}
static std::string c_str(const std::string& s) { return s.c_str(); }
// the place first, then exactly the message at the end
static void shows(vp::Ctx& c, const char* how, const std::string& what, const std::string& file, const std::string& func, int line, const std::string& msg) {
    c.check(what.size() >= msg.size() && what.compare(what.size() - msg.size(), msg.size(), msg) == 0, std::string(how) + ": the message does not end with what was streamed: " + what.substr(0, 300)); std::string head = what.substr(0, what.size() - msg.size());
    c.check(head.find(file) != std::string::npos && head.find(func) != std::string::npos && head.find(std::to_string(line)) != std::string::npos, std::string(how) + ": file, function or line is missing: " + head.substr(0, 300)); c.check(head.find("text") == std::string::npos && head.find("<7>") == std::string::npos && head.find("{2, 3}") == std::string::npos, std::string(how) + ": something appears twice");
}
static int thrower(const std::vector<int>& ks) { int line = __LINE__ + 1;
    auto go = [&] { E e(line, "some/file.cpp", "function_name"); for (int k : ks) put(e, k); throw e; }; go(); return 0; }
SCENARIO(messages, 3) {
    int n = c.range(0, c.thorough() ? 4 : 3); std::vector<int> ks; std::ostringstream o; for (int i = 0; i < n; ++i) { ks.push_back(c.choose(KINDS)); put(o, ks.back()); } int way = c.choose(9); c.tell("way ", way); uint64_t st = way; for (int k : ks) st = vp::mix(st, k + 1); c.state(st); std::string msg = o.str(), file = "some/file.cpp", fn = "function_name"; bool nul = msg.find('\0') != std::string::npos; c.step();
    auto look = [&](const char* how, const std::exception& e, int line) { std::string w = e.what(); std::string m = msg; if (nul) { c.check(w.find(c_str(msg)) != std::string::npos, std::string(how) + ": text before the first zero byte is missing"); return; } shows(c, how, w, file, fn, line, m); c.check(std::string(e.what()) == w, std::string(how) + ": a second what() differs"); };
    auto make = [&](int line) { E e(line, file, fn); for (int k : ks) put(e, k); return e; };
    switch (way) {
        case 0: { E e = make(17); look("direct", e, 17); break; }
        case 1: try { thrower(ks); c.fail("nothing thrown"); } catch (E& e) { std::string w = e.what(); size_t p = w.find("line"); int line = p == std::string::npos ? 0 : atoi(w.c_str() + w.find_first_of("0123456789", p)); look("caught by reference", e, line); } break;
        case 2: try { thrower(ks); c.fail("nothing thrown"); } catch (std::exception& e) { std::string w = e.what(); c.check(nul || (w.size() >= msg.size() && w.substr(w.size() - msg.size()) == msg), "caught as std::exception"); } break;
        case 3: try { throw make(5); } catch (E e) { look("caught by value", e, 5); E f = e; look("copy", f, 5); look("original after a copy", e, 5); } break;
        case 4: { std::exception_ptr p; try { throw make(9); } catch (...) { p = std::current_exception(); } for (int i = 0; i < 2; ++i) try { std::rethrow_exception(p); } catch (const E& e) { look("rethrown", e, 9); } break; }
        case 5: { std::exception_ptr p; std::thread([&] { try { throw make(11); } catch (...) { p = std::current_exception(); } }).join(); try { std::rethrow_exception(p); } catch (const E& e) { look("from another thread", e, 11); } break; }
        case 6: { std::vector<E> v; for (int i = 0; i < 5; ++i) v.push_back(make(100 + i)); for (int i = 0; i < 5; ++i) look("in a vector", v[i], 100 + i); v.erase(v.begin()); look("after others are gone", v[0], 101); break; }
        case 7: { std::unique_ptr<E> a(new E(make(3))); std::string before = a->what(); E b(*a); a.reset(); look("copy outlives the original", b, 3); c.check(before == b.what(), "copy differs"); break; }
        default: { E a = make(1), b = make(2); look("first of two", a, 1); look("second of two", b, 2); look("first of two again", a, 1); const char* p = a.what(); std::string s = p; b.what(); c.check(s == p, "what() of one exception changes another's text"); }
    }
}
// DeepWorks_Assert: throws exactly when the expression is false, evaluates it once, names it
SCENARIO(asserts, 2) {
    int n = c.range(1, 5), bits = c.choose(1 << 5) & ((1 << n) - 1); c.tell(n, " assertions, outcomes ", bits); c.state(vp::mix(n, bits)); int evals = 0, passed = 0, line = 0; bool threw = false; std::string w; auto ok = [&](int i) { ++evals; return bits >> i & 1; };
    try { for (int i = 0; i < n; ++i) { line = __LINE__; DeepWorks_Assert(ok(i) && "the reason given"); ++passed; } } catch (const std::exception& e) { threw = true; w = e.what(); }
    c.step(); int first = 0; while (first < n && (bits >> first & 1)) ++first; c.check(threw == (first < n), "assertion threw although all hold, or did not throw"); c.check(passed == first && evals == std::min(n, first + 1), "an expression was evaluated more than once or skipped"); if (threw) { c.check(w.find("ok(i)") != std::string::npos && w.find("the reason given") != std::string::npos, "the failed expression is not named: " + w); c.check(w.find("h_error.cpp") != std::string::npos && w.find(std::to_string(line)) != std::string::npos, "the place is not named: " + w); }
}
SCENARIO(throws_in_place, 2) { int k = c.choose(KINDS), j = c.choose(KINDS); c.tell(k, " ", j); c.state(k * 64 + j); std::ostringstream o; put(o, k); put(o, j); std::string w; int line = 0; try { line = __LINE__; DeepWorks_Throw() << o.str() << "|end"; c.fail("nothing thrown"); } catch (const E& e) { w = e.what(); } c.step(); std::string m = o.str(); if (m.find('\0') == std::string::npos) shows(c, "DeepWorks_Throw", w, "h_error.cpp", "", line, m + "|end"); }
// every kind of rejected call: a std::exception with a text, every time, and the library goes on working
SCENARIO(rejections, 3) {
    dw::Tensor a = mk({2, 3}, ints(6, 1, 4)), b = mk({3, 2}, ints(6, 2, 4)); Vec av = vals(a), bv = vals(b); int D = c.thorough() ? 4 : 3; uint64_t st = 0; static const int N = 12;
    for (int d = 0; d < D; ++d) { int op = c.choose(N); c.tell("rejected call ", op); std::string w; c.step();
        try { switch (op) { case 0: a.copyTo(b); break; case 1: a.reshape({4, 2}); break; case 2: dw::Tensor(Sh{-1, 2}); break; case 3: { dw::Linear l(3, "l"); l(dw::Placeholder(Sh{4})); break; } case 4: { dw::Add l("l"); l(dw::Placeholder(Sh{4, 2}), dw::Placeholder(Sh{2, 4})); break; } case 5: { dw::Convolution l(1, {1, 1}, {0, 0}, {1, 1}, "l"); l(dw::Placeholder(Sh{4, 2})); break; } case 6: dw::make_layer("NoSuchType", "l", {}, {dw::Placeholder(Sh{4, 2})}); break; case 7: dw::metric::accuracy(a, b); break; case 8: dw::metric::accuracyOneHot(a, b); break; case 9: { dw::loss::CrossEntropyLoss l; l.forward(a, b); break; } case 10: { dw::Tensor e; a.copyTo(e); break; } default: { dw::GlobalAvgPooling l("l"); l(dw::Placeholder(Sh{4, 2})); } } c.fail("call " + std::to_string(op) + " was accepted"); } catch (const vp::Violation&) { throw; } catch (const std::exception& e) { w = e.what(); std::string again = e.what(); c.check(!w.empty() && w == again, "empty or changing error text"); }
        expect_same(c, "tensor a", vals(a), av); expect_same(c, "tensor b", vals(b), bv); c.check(a.shape() == Sh{2, 3} && b.shape() == Sh{3, 2}, "shape changed by a rejected call"); st = vp::mix(st, op); c.state(st); }
}
// the text is read while the message is still growing; places of every size
SCENARIO(growing, 3) {
    static const std::vector<int> lines = {1, 9, 255, 32767, 32768, 65535, 65536, 1000000, 2147483647}; static const std::vector<std::string> names = {"f", "some/file.cpp", "a dir/file name.cpp", "/" + std::string(300, 'd') + "/f.cpp"};
    int line = c.pick(lines); auto file = c.pick(names), fn = c.choose(2) ? std::string("operator()") : std::string("fun"); int D = c.thorough() ? 5 : 4; E e(line, file, fn); std::ostringstream o; uint64_t st = vp::mix(line, file.size() * 31 + fn.size()); static const int parts[] = {0, 1, 5, 8, 9};
    c.tell("line ", line, " of ", file);
    for (int d = 0; d < D; ++d) { int k = c.choose(7); c.step(); st = vp::mix(st, k); c.state(st); c.tell(k < 5 ? "part " : k == 5 ? "what()" : "copy", k); if (k < 5) { put(e, parts[k]); put(o, parts[k]); } else if (k == 5) shows(c, "while growing", e.what(), file, fn, line, o.str()); else { E f(e); shows(c, "copy while growing", f.what(), file, fn, line, o.str()); } }
    shows(c, "in the end", e.what(), file, fn, line, o.str());
}
