// C35: save_dot describes exactly the model's graph, in valid DOT, whatever the layers are called.
#include "serfiles.hpp"
#include <fstream>
using namespace dag;
namespace {
// A reader of the DOT language (the part without ports and subgraphs), written from its grammar.
struct Dot {
    struct Node { std::string id; std::map<std::string, std::string> attr; };
    struct Edge { std::string from, to; std::map<std::string, std::string> attr; };
    std::vector<Node> nodes; std::vector<Edge> edges; std::string err;
    struct Tok { int kind; std::string s; }; // 0 end, 1 id, 2 punctuation, 3 keyword
    const std::string& t; size_t p = 0; Tok cur{0, ""};
    explicit Dot(const std::string& text) : t(text) { try { parse(); } catch (const std::string& e) { err = e; } }
    static bool idstart(unsigned char x) { return isalpha(x) || x == '_' || x >= 128; }
    void next() {
        for (;;) {
            while (p < t.size() && isspace((unsigned char)t[p])) ++p;
            if (p < t.size() && t[p] == '#' && (p == 0 || t[p - 1] == '\n')) { while (p < t.size() && t[p] != '\n') ++p; continue; }
            if (t.compare(p, 2, "//") == 0) { while (p < t.size() && t[p] != '\n') ++p; continue; }
            if (t.compare(p, 2, "/*") == 0) { size_t e = t.find("*/", p); if (e == t.npos) throw std::string("unterminated comment"); p = e + 2; continue; }
            break;
        }
        if (p >= t.size()) { cur = {0, ""}; return; }
        unsigned char x = t[p];
        if (x == '"') { std::string s; for (++p;; ++p) { if (p >= t.size()) throw std::string("unterminated string"); if (t[p] == '"') break; if (t[p] == '\\' && p + 1 < t.size() && (t[p + 1] == '"' || t[p + 1] == '\\')) ++p; s += t[p]; } ++p; cur = {1, s}; return; }
        if (idstart(x)) { std::string s; while (p < t.size() && (idstart(t[p]) || isdigit((unsigned char)t[p]))) s += t[p++]; std::string l; for (char q : s) l += char(tolower(q)); bool kw = l == "node" || l == "edge" || l == "graph" || l == "digraph" || l == "subgraph" || l == "strict"; cur = {kw ? 3 : 1, kw ? l : s}; return; }
        if (isdigit(x) || x == '.' || (x == '-' && p + 1 < t.size() && (isdigit((unsigned char)t[p + 1]) || t[p + 1] == '.'))) { std::string s(1, t[p++]); bool dot = x == '.'; while (p < t.size() && (isdigit((unsigned char)t[p]) || (t[p] == '.' && !dot))) { if (t[p] == '.') dot = true; s += t[p++]; } if (p < t.size() && idstart(t[p])) throw "bad number '" + s + t[p] + "'"; cur = {1, s}; return; }
        if (t.compare(p, 2, "->") == 0 || t.compare(p, 2, "--") == 0) { cur = {2, t.substr(p, 2)}; p += 2; return; }
        if (strchr("{}[];,=:", x)) { cur = {2, std::string(1, char(x))}; ++p; return; }
        throw std::string("unexpected character '") + char(x) + "'";
    }
    bool is(const char* s) { return cur.kind >= 2 && cur.s == s; }
    void want(const char* s) { if (!is(s)) throw std::string("expected ") + s + " instead of '" + cur.s + "'"; next(); }
    std::string id() { if (cur.kind != 1) throw "expected a name instead of '" + cur.s + "'"; std::string s = cur.s; next(); return s; }
    std::map<std::string, std::string> attrs() { std::map<std::string, std::string> m; while (is("[")) { next(); while (!is("]")) { std::string k = id(); want("="); m[k] = id(); if (is(",") || is(";")) next(); } next(); } return m; }
    void parse() {
        next(); if (is("strict")) next(); want("digraph"); if (cur.kind == 1) next(); want("{");
        while (!is("}")) {
            if (is(";")) { next(); continue; }
            if (cur.kind == 3 && cur.s != "subgraph" && cur.s != "digraph" && cur.s != "strict") { next(); attrs(); continue; }
            std::string a = id();
            if (is("=")) { next(); id(); continue; }
            if (is("->")) { std::vector<std::string> ch{a}; while (is("->")) { next(); ch.push_back(id()); } auto at = attrs(); for (size_t i = 0; i + 1 < ch.size(); ++i) edges.push_back({ch[i], ch[i + 1], at}); continue; }
            nodes.push_back({a, attrs()});
        }
        next(); if (cur.kind) throw std::string("text after the graph");
    }
};
std::string shape_text(const Sh& s) { if (s.empty()) return "{ }"; std::ostringstream o; o << "{"; for (size_t i = 0; i < s.size(); ++i) o << (i ? ", " : "") << s[i]; o << "}"; return o.str(); }
void judge(vp::Ctx& c, const dw::Model::Config& k, const std::string& text) {
    Dot d(text); if (!d.err.empty()) c.fail("not a valid DOT file: " + d.err + "\n" + text);
    // every placeholder and every layer has one node, with its shape or its type in the label
    std::map<std::string, std::string> what; size_t layers = k.sorted_ops.size();
    for (auto& n : d.nodes) { if (what.count(n.id)) c.fail("two nodes are called '" + n.id + "'"); if (!n.attr.count("label")) c.fail("node '" + n.id + "' has no label"); what[n.id] = n.attr["label"]; }
    if (d.nodes.size() != k.ph_map.size() + layers) c.fail(std::to_string(d.nodes.size()) + " nodes for " + std::to_string(k.ph_map.size()) + " placeholders and " + std::to_string(layers) + " layers");
    auto ph = [&](int id) { return "Placeholder_" + std::to_string(id); };
    for (auto& kv : k.ph_map) { std::string n = ph(kv.second.id); if (!what.count(n)) c.fail("no node for placeholder " + n); std::string l = what[n]; if (l.find(n) == l.npos || l.find(shape_text(kv.second.shape)) == l.npos) c.fail("label of " + n + " is '" + l + "'"); }
    for (auto& op : k.sorted_ops) { if (!what.count(op.name)) c.fail("no node for layer '" + op.name + "'"); std::string l = what[op.name]; if (l != op.name + " (" + op.type + ")") c.fail("label of layer '" + op.name + "' is '" + l + "'"); }
    // one edge per input and output of every layer, labelled with its port
    std::multiset<std::string> want, got; auto es = [](const std::string& a, const std::string& b, const std::string& l) { return "'" + a + "' -> '" + b + "' " + l; };
    for (auto& op : k.sorted_ops) { for (size_t i = 0; i < op.in_ids.size(); ++i) want.insert(es(ph(op.in_ids[i]), op.name, "in_port: " + std::to_string(i))); for (size_t i = 0; i < op.out_ids.size(); ++i) want.insert(es(op.name, ph(op.out_ids[i]), "out_port: " + std::to_string(i))); }
    for (auto& e : d.edges) { auto it = e.attr.find("label"); got.insert(es(e.from, e.to, it == e.attr.end() ? "" : it->second)); }
    for (auto& w : want) if (got.count(w) != want.count(w)) c.fail("edge " + w + " appears " + std::to_string(got.count(w)) + " times"); for (auto& g : got) if (!want.count(g)) c.fail("extra edge " + g);
}
std::string slurp_(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void model(vp::Ctx& c, dw::Model& m, bool existing = false) {
    sf::File f("dot"); std::string before = cfgcmp::canon(m.cfg()); if (existing) { std::ofstream o(f.p); o << std::string(30000, '}'); }
    dw::save_dot(m.cfg(), f.p); c.step(); std::string t = slurp_(f.p); judge(c, m.cfg(), t); c.check(cfgcmp::canon(m.cfg()) == before, "save_dot changed the config");
    dw::Model::Config k = m.cfg(); dw::save_dot(k, f.p); c.step(); judge(c, k, slurp_(f.p)); // a copied config, over an existing file
}
void graph(vp::Ctx& c, const G& g, int dev) { c.tell(g.str()); c.state(vp::mix(g.hash(), g.names.empty() || g.names[0].empty())); Built b; { Orders o(c, dev); b = build(g); } model(c, b.m, g.hash() % 3 == 0); }
void unname(vp::Ctx& c, G& g) { if (c.flip("unnamed")) for (auto& n : g.names) n = ""; }
const std::vector<int> K3 = {LINEAR, RELU, ADD};
const std::vector<std::string> NAMES = {"a", "conv-1", "a b", " ", "1x", "3.14", "-2", "node", "Graph", "edge", "subgraph", "strict", "q\"q", "\"", "b\\", "b\\\\", "\\\"", "\\n", "a;b", "a->b", "[x]", "a=b", "{", "}", "a:p", "// c", "/* c", "#", "<b>", "\xc3\xa9", "x\ny", "\n#", "a,b", "Placeholder", "Placeholder_x", "placeholder_0", "_", "label", std::string(300, 'q'), "a (ReLU)", "%s", "'"};
}
SCENARIO(k1, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 1, {LINEAR, RELU, ADD, LEAKY, SIGMOID}, 1, true); unname(c, g); graph(c, g, -1); }
SCENARIO(k2, 3) { int nin = c.range(1, 2); G g = choose(c, nin, 2, {LINEAR, RELU, ADD}, 1, true); unname(c, g); graph(c, g, c.thorough() ? -1 : 1); }
SCENARIO(k3, 4) { int nin = c.range(1, 3); G g = choose(c, nin, 3, nin == 1 || c.thorough() ? K3 : std::vector<int>{LINEAR, ADD}, nin == 1 || c.thorough() ? 1 : 0); graph(c, g, 0); }
SCENARIO(lists, 4) { int nin = c.range(1, 2), k = c.range(0, 2); G g = choose_any(c, nin, k, {LINEAR, ADD}, 2, true); graph(c, g, 0); }
// every pair of odd names
SCENARIO(odd_names, 2) {
    const std::string &a = c.pick(NAMES), &b = c.pick(NAMES); if (a == b) throw vp::Skip{}; int sh = c.choose(2); c.tell("layers '", a, "' and '", b, "'"); c.state(vp::mix(vp::mix(vp::hash_str(a), vp::hash_str(b)), sh));
    dw::Placeholder x(Sh{2, 3}); auto h = dw::ReLU(a)(x); auto y = sh ? dw::Add(b)(x, h) : dw::Linear(3, b)(h); dw::Model m(x, y); model(c, m);
}
// every layer type, pairs
SCENARIO(zoo_pairs, 2) { auto& z = zoo::items(); int a = c.choose((int)z.size()), b = c.choose((int)z.size()); zoo::Net n = zoo::chain({&z[a], &z[b]}, c.flip()); if (!n.ok) throw vp::Skip{}; c.tell(n.desc); c.state(vp::hash_str(n.desc)); dw::Model m(n.in, n.out); model(c, m); }
// many layers: ids and ports with several digits
SCENARIO(many, 1) { int k = c.range(1, 60); bool named = c.flip(); c.tell(k, " layers"); c.state(vp::mix(k, named)); dw::Placeholder x(Sh{2, 3}), h = x, prev = x; for (int i = 0; i < k; ++i) { auto n = named ? "n" + std::to_string(i) : std::string(); auto nx = i % 3 == 2 ? dw::Add(n)(h, prev) : i % 3 ? dw::ReLU(n)(h) : dw::Linear(3, n)(h); prev = h; h = nx; } dw::Model m(x, h); model(c, m); }
