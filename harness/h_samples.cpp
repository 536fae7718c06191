// C38: the samples' datasets and programs, on every small dataset and every order in which the file
// system may list its directories.
#include "draws.hpp"
#include "img.hpp"
#include <deepworks/dataloader.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/serialization.hpp>
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/wait.h>
#include <unordered_map>
#define custom custom_mnist
#include "samples/mnist/utility.hpp"
#undef custom
#define custom custom_cifar10
#include "samples/cifar10/utility.hpp"
#undef custom
#define custom custom_cifar100
#include "samples/cifar100/utility.hpp"
#undef custom
#define custom custom_iris
#include "samples/iris/utility.hpp"
#undef custom
int main_mnist(int, char**); int main_cifar10(int, char**); int main_cifar100(int, char**); int main_iris(int, char**);
namespace fs = std::filesystem;

// Directory listings come in the order the scenario chose.
namespace order {
int dirs = 0, files = 0; bool on = false; // ranks of permutations
struct Listing { std::vector<dirent> e; size_t at = 0; };
std::map<DIR*, Listing>& open() { static std::map<DIR*, Listing> m; return m; }
}
extern "C" dirent* readdir(DIR* d) {
    static auto real = (dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir"); if (!order::on) return real(d);
    auto it = order::open().find(d);
    if (it == order::open().end()) {
        order::Listing l; while (dirent* e = real(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) l.e.push_back(*e);
        std::sort(l.e.begin(), l.e.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
        int k = !l.e.empty() && l.e[0].d_type == DT_DIR ? order::dirs : order::files; std::vector<dirent> src = l.e, out;
        for (size_t n = src.size(); n; --n) { size_t i = k % n; k /= n; out.push_back(src[i]); src.erase(src.begin() + i); } l.e = out;
        it = order::open().emplace(d, l).first;
    }
    return it->second.at < it->second.e.size() ? &it->second.e[it->second.at++] : nullptr;
}
extern "C" int closedir(DIR* d) { static auto real = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir"); order::open().erase(d); return real(d); }

namespace {
struct Order { Order(int d, int f) { order::dirs = d; order::files = f; order::on = true; } ~Order() { order::on = false; } };
int fact(int n) { int r = 1; while (n > 1) r *= n--; return r; }
std::string root() { static std::string r; if (r.empty()) r = img::dir() + "/samples"; return r; }
void spit(const std::string& p, const std::string& b) { std::ofstream f(p, std::ios::binary); f << b; }
// w x h image with ch channels whose pixels depend on id
int px(int id, int x, int y, int k) { return int(vp::mix(vp::mix(id * 977 + 5, y * 64 + x), k + 3) >> 11) & 255; }
Bytes image(int w, int ch, int id) {
    Bytes o = "\x89PNG\r\n\x1a\n", h, raw; img::be32(h, w); img::be32(h, w); h += char(8); h += char(ch == 1 ? 0 : 2); h += Bytes(3, 0); img::chunk(o, "IHDR", h);
    for (int y = 0; y < w; ++y) { raw += char(0); for (int x = 0; x < w; ++x) for (int k = 0; k < ch; ++k) raw += char(px(id, x, y, k)); }
    Bytes z(compressBound(raw.size()), 0); uLongf n = z.size(); compress2((Bytef*)&z[0], &n, (const Bytef*)raw.data(), raw.size(), 1); z.resize(n); img::chunk(o, "IDAT", z); img::chunk(o, "IEND", ""); return o;
}
const Vec& features(int w, int ch, int id) { static std::map<std::array<int, 3>, Vec> cache; Vec& v = cache[{w, ch, id}]; if (!v.empty()) return v; for (int k = 0; k < ch; ++k) for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) v.push_back(float(px(id, x, y, k)) / 255); return v; }
bool near(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) < 1e-5f)) return false; return true; }
struct Tree { // classes with the ids of their files
    std::map<std::string, std::vector<int>> cls; std::string at;
    void write(const std::string& where, int w, int ch) { at = where; fs::create_directories(at); for (auto& kv : cls) { fs::create_directories(at + "/" + kv.first); for (int id : kv.second) spit(at + "/" + kv.first + "/" + std::to_string(id) + ".png", image(w, ch, id)); } }
    int files() const { int n = 0; for (auto& kv : cls) n += kv.second.size(); return n; }
};
struct Clean { std::string p; Clean(const std::string& q) : p(q) { fs::remove_all(p); fs::create_directories(p); } ~Clean() { fs::remove_all(p); } };
// Every item is one file of the tree with the label of its class; every file appears once. Labels: class -> label.
void content(vp::Ctx& c, dw::IDataset& d, const Tree& t, int w, int ch, const std::map<std::string, int>& labels, int hist) {
    c.check((int)d.size() == t.files(), "the dataset has " + std::to_string(d.size()) + " items, the folder has " + std::to_string(t.files()));
    Sh xs = ch == 1 ? Sh{w * w} : Sh{ch, w, w}; c.check(d.shape().first == xs && prod(d.shape().second) == 1, "shapes of an item");
    int n = t.files(); std::vector<std::string> cls; std::vector<Vec> want; std::vector<int> used; for (auto& kv : t.cls) for (int id : kv.second) { cls.push_back(kv.first); want.push_back(features(w, ch, id)); used.push_back(0); }
    std::vector<int> which(n, -1); dw::Tensor batch(ch == 1 ? Sh{2, w * w} : Sh{2, ch, w, w}); size_t m = prod(xs);
    for (int pass = 0; pass < 2; ++pass) for (int j = 0; j < n; ++j) { // every history asks for every item twice, in its own order
        int i = hist == 0 ? j : hist == 1 ? n - 1 - j : (j * 2 + pass) % n; if (hist == 2 && n % 2 == 0) i = (j * 2 + j * 2 / n) % n; c.step();
        std::fill_n(batch.data(), batch.total(), -9.f); Vec yb(3, -9.f); int row = (j + pass) % 2; dw::Tensor X(xs, batch.data() + row * m), y(d.shape().second, &yb[1]); d.pull(i, X, y);
        Vec got(batch.data() + row * m, batch.data() + (row + 1) * m); int f = -1; for (int q = 0; q < n; ++q) if (near(got, want[q])) { f = q; break; }
        c.check(f >= 0, "item " + std::to_string(i) + " is not any of the files"); for (size_t q = 0; q < m; ++q) c.check(batch.data()[(1 - row) * m + q] == -9.f, "an item was written outside its tensor"); c.check(yb[0] == -9.f && yb[2] == -9.f, "a label was written outside its tensor");
        c.check(yb[1] == labels.at(cls[f]), "a file of class '" + cls[f] + "' has label " + fstr(yb[1]) + ", expected " + std::to_string(labels.at(cls[f])));
        if (pass) c.check(which[i] == f, "item " + std::to_string(i) + " changed"); else { c.check(!used[f]++, "a file appears twice"); which[i] = f; }
    }
}
// a child process, because a sample's statics must start afresh; returns what f printed
std::string child(vp::Ctx& c, const std::function<std::string()>& f) {
    int p[2]; if (pipe(p)) abort(); pid_t pid = fork();
    if (!pid) { close(p[0]); std::string s; try { s = f(); } catch (const std::exception& e) { s = std::string("exception: ") + e.what(); } catch (const vp::Violation& v) { s = "violation: " + v.msg; } for (size_t o = 0; o < s.size();) { ssize_t k = write(p[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(p[1]); _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) s.append(b, k); close(p[0]); int st; waitpid(pid, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the sample crashed: status " + std::to_string(st)); if (s.rfind("violation: ", 0) == 0) c.fail(s.substr(11)); c.step(); return s;
}
} // namespace

// every choice of classes, number of files, listing order and request order
SCENARIO(mnist_dataset, 2) {
    static const std::vector<std::vector<std::string>> S = {{"0"}, {"7"}, {"0", "9"}, {"3", "1", "4"}, {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}}; auto& s = c.pick(S); Tree t; std::map<std::string, int> lab; int id = 1; for (auto& k : s) { int n = s.size() > 3 ? 1 + (k[0] - '0') % 2 : c.choose(3, "files"); auto& v = t.cls[k]; while (n--) v.push_back(id++); lab[k] = std::stoi(k); }
    int d = s.size() > 3 ? c.choose(60) * 60479 : c.choose(fact(s.size())), f = c.choose(2), h = c.choose(3); c.tell(s.size(), " classes, ", t.files(), " files, order ", d, ",", f, " requests ", h); c.state(vp::mix(vp::mix(vp::mix(s.size(), t.files()), d * 2 + f), h)); Clean k(root()); t.write(root() + "/train", 28, 1); Order o(d, f); custom_mnist::Dataset ds(t.at); content(c, ds, t, 28, 1, lab, h);
}
static const std::vector<std::string> C10 = {"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"};
SCENARIO(cifar10_dataset, 3) {
    int kind = c.choose(3); Tree t; std::map<std::string, int> lab; for (int i = 0; i < 10; ++i) lab[C10[i]] = i; int id = 1, d = 0, f = c.choose(2), h = c.choose(3);
    if (kind == 0) { auto& v = t.cls[c.pick(C10)]; int n = c.choose(4); while (n--) v.push_back(id++); } else if (kind == 1) { int a = c.choose(10), q = 1 + c.choose(4), b = (a + q) % 10, e = (a + 2 * q + 1) % 10; for (int i : {a, b, e}) t.cls[C10[i]] = {id++}; d = c.choose(fact(t.cls.size())); } else { for (auto& k : C10) { t.cls[k].push_back(id++); if (id % 3 == 0) t.cls[k].push_back(id++); } d = c.choose(30) * 120943; }
    c.tell(t.cls.size(), " classes, ", t.files(), " files, order ", d, ",", f, " requests ", h); c.state(vp::mix(vp::mix(vp::mix(kind, t.files()), d * 2 + f), vp::mix(h, vp::hash_str(t.cls.begin()->first)))); Clean k(root()); t.write(root() + "/train", 32, 3); Order o(d, f); custom_cifar10::CIFAR10Dataset ds(t.at); content(c, ds, t, 32, 3, lab, h);
}
// a folder that is no class is not silently a class
SCENARIO(cifar10_unknown, 1) {
    static const std::vector<std::string> U = {"plane", "Airplane", "cats", "", "misc", "0"}; std::string u = c.pick(U); Tree t; t.cls["bird"] = {1}; if (!u.empty()) t.cls[u] = {2}; int d = c.choose(fact(t.cls.size())); c.tell("folder '", u, "' order ", d); c.state(vp::mix(d, vp::hash_str(u))); Clean k(root()); t.write(root() + "/train", 32, 3); Order o(d, 0);
    bool threw = throws([&] { custom_cifar10::CIFAR10Dataset ds(t.at); for (size_t i = 0; i < ds.size(); ++i) { dw::Tensor X(Sh{3, 32, 32}), y(Sh{1}); ds.pull(i, X, y); Vec w = features(32, 3, 1); c.check(near(vals(X), w) && y.data()[0] == 2, "a file of the unknown class '" + u + "' was delivered with label " + fstr(y.data()[0])); } }); c.check(u.empty() ? !threw : true, "a valid folder was rejected");
}
// labels of CIFAR-100 number the class names; they agree between datasets and between processes
SCENARIO(cifar100_dataset, 3) {
    static const std::vector<std::vector<std::string>> S = {{"apple"}, {"bed", "apple"}, {"x", "b", "crab"}, {"sea", "oak", "bus", "whale"}}; auto& s = c.pick(S); int n = s.size(), id = 1; Tree train, test; int gap = c.choose(n + 1, "missing from the second set"); for (int i = 0; i < n; ++i) { train.cls[s[i]] = {id}; ++id; if (i % 2) train.cls[s[i]].push_back(id++); if (i != gap) test.cls[s[i]] = {id++}; }
    int d1 = c.choose(fact(n)), h = c.choose(3), f = h % 2; for (int i = 1; i < id; ++i) features(32, 3, i); c.tell(n, " classes, second set without ", gap, " order ", d1, ",", f, " requests ", h); c.state(vp::mix(vp::mix(vp::mix(n, gap), d1 * 2 + f), h)); Clean k(root()); train.write(root() + "/train", 32, 3); test.write(root() + "/test", 32, 3);
    std::string r = child(c, [&] {
        Order o(d1, f); custom_cifar100::CIFAR100Dataset a(train.at); order::dirs = fact(n) - 1 - d1; custom_cifar100::CIFAR100Dataset b(test.at);
        // the labels are read off the first set
        std::map<std::string, int> lab; dw::Tensor X(Sh{3, 32, 32}), y(Sh{1}); for (size_t i = 0; i < a.size(); ++i) { a.pull(i, X, y); for (auto& kv : train.cls) for (int id : kv.second) if (near(vals(X), features(32, 3, id))) lab[kv.first] = (int)y.data()[0]; }
        std::vector<int> seen; for (auto& kv : train.cls) { c.check(lab.count(kv.first), "class '" + kv.first + "' is not delivered"); seen.push_back(lab[kv.first]); } std::sort(seen.begin(), seen.end()); for (int i = 0; i < n; ++i) c.check(seen[i] == i, "the labels of " + std::to_string(n) + " classes are not 0.." + std::to_string(n - 1));
        content(c, a, train, 32, 3, lab, h); content(c, b, test, 32, 3, lab, h); std::string out; for (auto& kv : lab) out += kv.first + "=" + std::to_string(kv.second) + " "; return out; });
    // another process, another listing order
    if (h == 0 && gap == n) { int d2 = c.choose(fact(n)); std::string q = child(c, [&] { Order o(d2, f); custom_cifar100::CIFAR100Dataset a(train.at); std::map<std::string, int> lab; dw::Tensor X(Sh{3, 32, 32}), y(Sh{1}); for (size_t i = 0; i < a.size(); ++i) { a.pull(i, X, y); for (auto& kv : train.cls) for (int id : kv.second) if (near(vals(X), features(32, 3, id))) lab[kv.first] = (int)y.data()[0]; } std::string out; for (auto& kv : lab) out += kv.first + "=" + std::to_string(kv.second) + " "; return out; });
        c.tell(" then ", d2); c.check(q == r, "the labels depend on the order in which the file system lists the classes: " + r + "against " + q); }
}
namespace {
struct Row { const char* text; float v[4]; int label; }; // label -1: malformed
const Row ROWS[] = {{"5.1,3.5,1.4,0.2,setosa", {5.1f, 3.5f, 1.4f, 0.2f}, 0}, {"7,3.2,4.7,1.4,versicolor", {7, 3.2f, 4.7f, 1.4f}, 1}, {"-6.5,1e2,0,.25,virginica", {-6.5f, 100, 0, 0.25f}, 2}, {"0,0,0,0,setosa", {0, 0, 0, 0}, 0}, {"1,2,3,4,virginic", {}, -1}, {"1,2,3,4,", {}, -1}, {"1,2,3,4", {}, -1}, {"", {}, -1}, {"setosa", {}, -1}, {"1,2,3,4,Setosa", {}, -1}, {"1,,3,setosa", {}, -1}};
}
// every file of up to 3 (4) rows, good and malformed; a malformed row is rejected or skipped
SCENARIO(iris_dataset, 2) {
    int D = c.thorough() ? 4 : 3, n = c.choose(D + 1); std::vector<int> r; bool bad = false; for (int i = 0; i < n; ++i) { r.push_back(c.choose(11)); bad |= ROWS[r.back()].label < 0; } bool nl = c.flip("final newline"); int h = c.choose(2); std::string b = "sepal_length,sepal_width,petal_length,petal_width,species"; for (int i : r) b += std::string("\n") + ROWS[i].text; if (nl) b += "\n"; uint64_t st = nl * 2 + h; for (int i : r) { st = vp::mix(st, i); c.tell("[", ROWS[i].text, "] "); } c.state(st);
    Clean k(root()); std::string p = root() + "/iris.csv"; spit(p, b); std::vector<int> good; for (int i : r) if (ROWS[i].label >= 0) good.push_back(i); if (n && !nl && !*ROWS[r.back()].text) return;
    bool threw = throws([&] { custom_iris::IrisCSVDataset d(p); c.check(d.size() == good.size(), "the dataset has " + std::to_string(d.size()) + " rows, the file has " + std::to_string(good.size()) + " valid ones"); c.check(d.shape().first == Sh{4} && d.shape().second == Sh{1}, "shapes of an item"); for (int pass = 0; pass < 2; ++pass) for (size_t j = 0; j < good.size(); ++j) { size_t i = h ? good.size() - 1 - j : j; Vec x(6, -9.f), y(3, -9.f); dw::Tensor X(Sh{4}, &x[1]), Y(Sh{1}, &y[1]); d.pull(i, X, Y); c.step(); const Row& w = ROWS[good[i]]; for (int q = 0; q < 4; ++q) c.check(x[q + 1] == w.v[q], "feature " + std::to_string(q) + " of row " + std::to_string(i) + " = " + fstr(x[q + 1])); c.check(y[1] == w.label, "label of row " + std::to_string(i) + " = " + fstr(y[1])); c.check(x[0] == -9 && x[5] == -9 && y[0] == -9 && y[2] == -9, "an item was written outside its tensor"); } });
    c.check(bad || !threw, "a valid file was rejected");
}
SCENARIO(iris_missing, 1) { int k = c.choose(3); c.state(k); Clean g(root()); std::string p = k == 0 ? root() + "/no.csv" : k == 1 ? root() + "/no/iris.csv" : std::string(); c.tell("path ", p); c.check(throws([&] { custom_iris::IrisCSVDataset d(p); }), "a file that can't be read is taken for an empty dataset"); }

// the programs: what "test" reports for a saved model is what training reported, and what the model does
namespace {
std::string program(int (*f)(int, char**), std::vector<std::string> a) { std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); int r = -1; try { r = f((int)a.size(), v.data()); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); return (r ? "exit " + std::to_string(r) + "\n" : "") + o.str(); }
std::vector<std::string> after(const std::string& out, const std::string& key) { std::vector<std::string> r; std::istringstream s(out); std::string l; while (std::getline(s, l)) if (l.rfind(key, 0) == 0) r.push_back(l.substr(key.size())); return r; }
void programs(vp::Ctx& c, int which, int batch, int epochs, int d2, int per, uint64_t draw) {
    static const char* N[] = {"iris", "mnist", "cifar10", "cifar100"}; int (*M[])(int, char**) = {main_iris, main_mnist, main_cifar10, main_cifar100};
    c.tell(N[which], " batch ", batch, " epochs ", epochs, " ", per, " files per class, listing ", d2, " draws ", draw); c.state(vp::mix(vp::mix(vp::mix(which, batch), vp::mix(epochs, d2)), vp::mix(per, draw)));
    Clean k(root()); std::string R = root() + "/", mp = R + "model.bin"; Tree tr, te; int w = which == 1 ? 28 : 32, ch = which == 1 ? 1 : 3; std::vector<std::pair<Vec, int>> all; std::vector<std::string> cls = which == 1 ? std::vector<std::string>{"0", "4", "9"} : which == 2 ? std::vector<std::string>{"bird", "dog", "truck"} : std::vector<std::string>{"a", "b", "c"};
    if (which) { int id = 1; for (size_t q = 0; q < cls.size(); ++q) for (int i = 0; i < per; ++i) { tr.cls[cls[q]].push_back(id++); te.cls[cls[q]].push_back(id); all.push_back({features(w, ch, id++), which == 1 ? std::stoi(cls[q]) : which == 2 ? int(std::find(C10.begin(), C10.end(), cls[q]) - C10.begin()) : -1}); } tr.write(R + "train", w, ch); te.write(R + "test", w, ch); }
    else for (int s = 0; s < 2; ++s) { fs::create_directories(R + (s ? "test" : "train")); std::string b = "header\n"; static const char* SP[] = {"setosa", "versicolor", "virginica"}; for (int i = 0; i < per; ++i) for (int q = 0; q < 3; ++q) { Vec x; std::ostringstream o; for (int j = 0; j < 4; ++j) { float v = (q * (j + 1) * 8 + int(vp::mix(s * 100 + i * 10 + q, j) >> 9 & 7)) / 8.f; x.push_back(v); o << v << ","; } b += o.str() + SP[q] + "\n"; if (s) all.push_back({x, q}); } spit(R + (s ? "test" : "train") + "/iris.csv", b); }
    std::string a = child(c, [&] { Order o(0, 0); draws::set([&](uint64_t i) { return uint32_t(vp::mix(draw, i) >> 16); }); return program(M[which], {"sample", "train", R, std::to_string(batch), std::to_string(epochs), "1", mp}); });
    auto acc = after(a, "Accuracy: "); c.check((int)acc.size() == epochs && (int)after(a, "Epoch: ").size() == epochs, "training printed: " + a); for (auto& l : after(a, "Loss: ")) c.check(std::isfinite(atof(l.c_str())) && atof(l.c_str()) >= 0, "loss " + l);
    std::string b = child(c, [&] { Order o(d2, 0); draws::set([&](uint64_t i) { return uint32_t(vp::mix(77, i) >> 16); }); return program(M[which], {"sample", "test", R, std::to_string(batch), mp}); }); auto acc2 = after(b, "Accuracy: "); c.check(acc2.size() == 1, "testing printed: " + b); c.check(acc2[0] == acc.back(), "testing the saved model reports accuracy " + acc2[0] + ", training reported " + acc.back());
    // the saved model itself, file by file
    if (which < 3) { std::string q = child(c, [&] { dw::Model m = dw::load(mp); m.compile(); m.train(false); dw::Tensor X(m.inputs()[0].shape()), P(m.outputs()[0].shape()); int hits = 0, C = P.shape()[1]; size_t n = prod(X.shape()) / batch; for (auto& e : all) { for (int i = 0; i < batch; ++i) std::copy(e.first.begin(), e.first.end(), X.data() + i * n); m.forward(X, P); hits += std::max_element(P.data(), P.data() + C) - P.data() == e.second; } std::ostringstream o; o << float(double(hits) / all.size()); return o.str(); }); c.check(std::fabs(atof(q.c_str()) - atof(acc2[0].c_str())) < 1e-4, "the model is right on a share of " + q + " of the files, the program reports " + acc2[0]); }
}
}
SCENARIO(iris_program, 4) { int b = c.range(1, 4), e = c.range(1, 3), per = c.range(1, 3) * b; programs(c, 0, b, e, 0, per, c.choose(c.thorough() ? 20 : 3)); }
SCENARIO(mnist_program, 2) { int b = c.range(1, 3), e = c.range(1, 2); programs(c, 1, b, e, c.choose(6), b, c.choose(c.thorough() ? 5 : 1)); }
SCENARIO(cifar10_program, 2) { int d = c.choose(c.thorough() ? 6 : 2); programs(c, 2, c.range(1, c.thorough() ? 3 : 1), 1, d ? 6 - d : 0, 1, 5); }
SCENARIO(cifar100_program, 3) { int d = c.choose(c.thorough() ? 6 : 2), b = c.range(1, c.thorough() ? 3 : 2); programs(c, 3, b, 6, d ? 6 - d : 0, 2 * b, 5 + c.choose(2)); }
