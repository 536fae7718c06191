// C41: operations on different objects, each on a thread of its own.
#include "work.hpp"
#include "img.hpp"
#include <fstream>
#include <sys/syscall.h>
#include <sys/wait.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() { return 0; }
using namespace work;
// a function of the generator's state and nothing else
extern "C" __attribute__((no_sanitize("thread"))) uint32_t vp_draw(uint64_t stream, uint64_t pos) { return uint32_t(vp::mix(vp::mix(77, stream), pos) >> 16); }
namespace {
// drawn: the results depend on random numbers and are not compared
struct Task { std::string name; std::function<Out()> run; bool drawn; };
struct Shared { dw::Tensor x, y, lab, big; std::shared_ptr<dw::IDataset> ds; std::string dir, png, jpg, bad; };
// a dataset that may be read from anywhere
struct Plain : dw::IDataset { size_t size() override { return 5; } OutShape shape() override { return {{3}, {1}}; } void pull(int i, dw::Tensor& X, dw::Tensor& y) override { for (int j = 0; j < 3; ++j) X.data()[j] = i * 10 + j; y.data()[0] = i; } };
Shared& shared() { static Shared s; return s; }
void put(Out& o, const std::string& n, const dw::Tensor& t) { o.push_back({n, vals(t)}); }
Vec text(const std::string& s) { return Vec(s.begin(), s.end()); }
std::string here() { return getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp"; }
std::vector<Task>& tasks() {
    static std::vector<Task> v; if (!v.empty()) return v;
    auto& S = shared(); S.dir = here(); S.x = mk({2, 3}, {1, -2, 3, 0.5f, 2, -1}); S.y = mk({2, 3}, {0.5f, 0.25f, 0.25f, 0.125f, 0.5f, 0.375f}); S.lab = mk({2, 1}, {2, 0}); S.big = mk({2, 2, 2, 3}, ints(24, 5, 9)); S.ds = std::make_shared<Plain>();
    auto file = [&](const std::string& n, const Bytes& b) { std::string p = S.dir + "/" + std::to_string(getpid()) + n; FILE* f = fopen(p.c_str(), "wb"); if (!f) abort(); fwrite(b.data(), 1, b.size(), f); fclose(f); return p; };
    img::Png pg{3, 2, 2, 8, false, 5, 0}; Bytes b = img::png(pg); S.png = file("a.png", b); S.bad = file("b.png", b.substr(0, b.size() / 2)); { img::Jpg j{3, 2, 3, false, 1, 1, 90, 0}; S.jpg = file("a.jpg", img::jpg(j)); }
    for (auto& k : cases()) if (k.size == 0) { bool d = k.name.find("Dropout") == 0 || k.name.find("initializers") == 0; v.push_back({k.name, k.run, d}); }
    auto T = [&](const std::string& n, std::function<Out()> f, bool drawn = false) { v.push_back({n, f, drawn}); };
    // operations that read the same objects
    for (auto& it : zoo::items()) { Sh s = it.fits({2, 3}) ? Sh{2, 3} : Sh{2, 2, 2, 3}; if (!it.fits(s)) continue; T(it.desc + " on a tensor that others read", [it, s] { auto& S = shared(); Out o; auto l = it.lay(s); int q = 0; for (auto& kv : l.info.impl().params) setv(kv.second.data(), ints(kv.second.data().total(), 70 + q++, 3)); l.train(it.type != "Dropout"); dw::Tensor x = s.size() == 2 ? S.x : S.big; std::vector<dw::Tensor> in{x}; if (it.type == "Add") in.push_back(x); std::vector<dw::Tensor> out{dw::Tensor(l.out)}; l.impl->forward(in, out); put(o, "output", out[0]); return o; }); }
    T("CrossEntropyLoss on tensors that others read", [] { auto& S = shared(); Out o; dw::loss::CrossEntropyLoss l; o.push_back({"loss", {l.forward(S.y, S.lab)}}); dw::Tensor g(Sh{2, 3}); l.backward(S.y, S.lab, g); put(o, "gradient", g); return o; });
    T("metrics on tensors that others read", [] { auto& S = shared(); return Out{{"accuracy", {dw::metric::accuracy(S.y, S.lab)}}}; });
    T("reading and copying a shared tensor", [] { auto& S = shared(); Out o; dw::Tensor h = S.big, c(h.shape()); h.copyTo(c); put(o, "copy", c); auto h2 = h; put(o, "handle", h2); o.push_back({"shape", Vec(h.shape().begin(), h.shape().end())}); o.push_back({"strides", Vec(h2.strides().begin(), h2.strides().end())}); dw::Tensor n(Sh{2, 2, 3, 2}); dw::utils::NCHW2NHWC(h, n); put(o, "NHWC", n); c.reshape({4, 6}); put(o, "reshaped", c); return o; });
    T("printing a shared tensor", [] { auto& S = shared(); std::ostringstream s; s << S.x << S.big; return Out{{"text", text(s.str())}}; });
    T("loader over a shared dataset", [] { auto& S = shared(); Out o; dw::DataLoader l(S.ds, 2, false); dw::Tensor X, y; while (l.pull(X, y)) { put(o, "X", X); put(o, "y", y); } return o; });
    T("shuffled loader over a shared dataset", [] { auto& S = shared(); Out o; dw::DataLoader l(S.ds, 2, true); dw::Tensor X, y; int n = 0; while (l.pull(X, y)) ++n; return Out{{"batches", {float(n)}}}; });
    T("creating layers", [] { auto l = Lay::make(dw::Linear(2, "x"), {{2, 3}}); auto k = Lay::make(dw::Convolution(2, {2, 2}, {0, 0}, {1, 1}, "x"), {{1, 1, 2, 2}}); return Out{{"units", {float(l.out[1]), float(k.out[1])}}}; });
    T("random tensors", [] { dw::Tensor a = dw::Tensor::uniform({2, 2}, 1, 2), b = dw::Tensor::xavierUniform({2, 2}); for (float f : vals(a)) if (!(f >= 1 && f <= 2)) throw std::runtime_error("uniform(1,2) gave " + fstr(f)); return Out{}; });
    T("Dropout", [] { auto l = Lay::make(dw::Dropout(0.5f, "x"), {{2, 3}}); l.train(true); auto& S = shared(); std::vector<dw::Tensor> in{S.x}, out{dw::Tensor(Sh{2, 3})}; l.impl->forward(in, out); auto a = vals(S.x), b = vals(out[0]); for (size_t i = 0; i < a.size(); ++i) if (b[i] != 0 && b[i] != 2 * a[i]) throw std::runtime_error("Dropout(0.5) made " + fstr(b[i]) + " of " + fstr(a[i])); return Out{}; });
    T("reading a PNG", [] { Out o; put(o, "pixels", dw::io::ReadImage(shared().png)); return o; });
    T("reading a PNG into a tensor", [] { Out o; dw::Tensor t(Sh{2, 3, 3}); dw::io::ReadImage(shared().png, t); put(o, "pixels", t); return o; });
    T("reading a JPEG", [] { Out o; put(o, "pixels", dw::io::ReadImage(shared().jpg)); return o; });
    T("reading damaged images", [] { Out o; for (auto& p : {shared().bad, shared().dir + "/none.jpg", shared().dir + "/x.gif"}) { bool t = false; try { dw::io::ReadImage(p); } catch (const std::exception& e) { t = e.what()[0] != 0; } o.push_back({"rejected", {float(t)}}); } return o; });
    T("rejected calls", [] { Out o; auto ask = [&](std::function<void()> f) { try { f(); o.push_back({"text", {0}}); } catch (const std::exception& e) { std::string s = e.what(); auto k = s.find('\n'); o.push_back({"text", text(s.substr(k + 1))}); } }; ask([] { dw::Tensor t(Sh{2, -1}); }); ask([] { dw::Tensor t(Sh{2, 2}); t.reshape({3, 3}); }); ask([] { Lay::make(dw::Softmax("x"), {{2, 2, 2}}); }); return o; });
    auto net = [] { Sh s{2, 3}; dw::Placeholder in(s); dw::Model m(in, dw::ReLU("r")(dw::Linear(2, "l")(in))); m.compile(); zoo::randomize(m, 3); return m; };
    struct Tmp { std::string p = here() + "/t" + std::to_string(syscall(SYS_gettid)); ~Tmp() { unlink(p.c_str()); } std::string text() { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; } };
    T("saving and loading", [net] { Out o; Tmp f; auto m = net(); dw::save(m, f.p); auto k = dw::load(f.p); k.compile(); auto g = [&](dw::Model& m) { dw::Tensor y(Sh{2, 2}); m.train(false); m.forward(shared().x, y); return y; }; put(o, "before", g(m)); put(o, "after", g(k)); return o; });
    T("writing DOT", [net] { Tmp f; auto m = net(); dw::save_dot(m.cfg(), f.p); return Out{{"text", text(f.text())}}; });
    return v;
}
struct Job { const Task* k[3]; Out out[3]; std::string err[3]; };
void body(int t, void* p) { auto& j = *(Job*)p; try { j.out[t] = j.k[t]->run(); } catch (const std::exception& e) { j.err[t] = e.what(); } catch (...) { j.err[t] = "an unknown exception"; } }
void judge(vp::Ctx& c, Job& j, int n, const std::function<const Out&(int)>& ref) {
    for (int t = 0; t < n; ++t) {
        if (!j.err[t].empty()) c.fail(j.k[t]->name + " failed: " + j.err[t]);
        auto& r = ref(t); auto& o = j.out[t]; if (j.k[t]->drawn) continue;
        c.check(o.size() == r.size(), j.k[t]->name + ": number of results");
        for (size_t i = 0; i < r.size(); ++i) { c.check(o[i].second.size() == r[i].second.size(), j.k[t]->name + ": size of " + r[i].first); for (size_t q = 0; q < r[i].second.size(); ++q) if (bits(o[i].second[q]) != bits(r[i].second[q])) c.fail(j.k[t]->name + ": " + r[i].first + "[" + std::to_string(q) + "] = " + fstr(o[i].second[q]) + " beside another thread, " + fstr(r[i].second[q]) + " alone"); }
    }
}
std::map<int, Out> alone; std::map<uint64_t, bool> warm;
void run(vp::Ctx& c, Job& j, int n, const sched::Opts& o) { sched::begin(c, o); sched::threads(n, body, &j); sched::end(); c.step(); }
void explore(vp::Ctx& c, const std::vector<int>& ids, int preemptions, bool acc) {
    auto& ts = tasks(); int n = (int)ids.size(); auto job = [&] { Job j; for (int t = 0; t < n; ++t) j.k[t] = &ts[ids[t]]; return j; };
    std::string d; for (int t = 0; t < n; ++t) d += (t ? " beside " : "") + ts[ids[t]].name; c.tell(d);
    for (int i : ids) if (!alone.count(i)) alone[i] = ts[i].run();
    uint64_t key = n; for (int i : ids) key = vp::mix(key, i);
    auto ref = [&](int t) -> const Out& { return alone[ids[t]]; };
    if (!warm[key]) { for (int q = 0; q < 2; ++q) { auto j = job(); run(c, j, n, {n, 0, false, -2}); judge(c, j, n, ref); } warm[key] = true; } // thread-local first uses
    auto j = job(); run(c, j, n, {n, preemptions, acc, 0}); judge(c, j, n, ref);
    uint64_t h = key; for (size_t i = 1; i < c.m_pos; ++i) h = vp::mix(h, c.m_path[i].val); c.state(h);
}
}
// every pair of operations, either one first
SCENARIO(pairs, 2) { int n = (int)tasks().size(); int a = c.choose(n, "first operation"), b = c.choose(n - a, "second operation") + a; explore(c, {a, b}, 0, false); }
// one preemption at every synchronisation point or atomic operation
SCENARIO(preempt_sync, 2) {
    auto& ts = tasks(); std::vector<int> ids; for (size_t i = 0; i < ts.size(); ++i) if (c.thorough() || (ts[i].name.find("model") != 0 && ts[i].name.find("saving") != 0 && ts[i].name.find("writing") != 0)) ids.push_back((int)i); // models: thousands of points each
    int n = (int)ids.size(), a = c.choose(n, "first operation"), b = (a + c.choose(2, "second operation")) % n; explore(c, {ids[a], ids[b]}, 1, false);
}

// first use in a process: a child made for each pair of operations, none of which has run before
SCENARIO(first_use, 2) {
    auto& ts = tasks(); int n = (int)ts.size(); int a = c.choose(n, "first operation"), b = c.choose(n - a, "second operation") + a; int lead = a == b ? 0 : c.choose(2, "leading thread"); if (lead) std::swap(a, b);
    c.tell("first use in the process: ", ts[a].name, " beside ", ts[b].name);
    int fd[2]; if (pipe(fd)) throw vp::Violation{"harness error: pipe"};
    fflush(nullptr); pid_t p = fork();
    if (p == 0) {
        close(fd[0]); std::string m; sched::forked(); Job j; j.k[0] = &ts[a]; j.k[1] = &ts[b];
        try { sched::begin(c, {2, 0, false, -2}); sched::threads(2, body, &j); sched::end(); for (int t = 0; t < 2; ++t) if (!j.err[t].empty()) m = j.k[t]->name + " failed: " + j.err[t]; } catch (const vp::Violation& v) { m = v.msg; }
        if (!m.empty() && write(fd[1], m.data(), m.size()) < 0) _exit(3);
        _exit(0);
    }
    close(fd[1]); std::string m; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k); close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (!m.empty()) c.fail(m); c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process died"); c.step(); c.state(vp::mix(a, b));
}
