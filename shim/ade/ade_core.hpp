// Stand-in for the ADE graph library (opencv/ade), which is an empty submodule in
// this sandbox. Only the API is reproduced; the one freedom the real library has -
// which of the valid topological orders it returns - is exposed as a choice point
// (ade::vp::chooser()), so that a harness can explore every order.
#pragma once
#include <algorithm>
#include <any>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ade {
namespace vp {
// returns a value in [0, n)
inline std::function<int(int)>& chooser() { static std::function<int(int)> f; return f; }
inline int choose(int n) { return (n > 1 && chooser()) ? chooser()(n) : 0; }
}

class Node; class Edge; class Graph;

template <typename T>
class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(const std::shared_ptr<T>& p) : m_p(p) {}
    // NB: as in ADE, a handle does not own the node.
    T* get() const { return m_p.lock().get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    bool operator==(const Handle& o) const { return get() == o.get(); }
    bool operator!=(const Handle& o) const { return get() != o.get(); }
    bool operator<(const Handle& o) const { return get() < o.get(); }
    friend bool operator==(const Handle& h, std::nullptr_t) { return h.get() == nullptr; }
    friend bool operator!=(const Handle& h, std::nullptr_t) { return h.get() != nullptr; }
private:
    std::weak_ptr<T> m_p;
};
using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;

template <typename T> struct HandleHasher {
    size_t operator()(const Handle<T>& h) const { return std::hash<T*>()(h.get()); }
};

class Metadata {
public:
    template <typename T> void set(T v) { m_data[std::type_index(typeid(T))] = std::make_shared<std::any>(std::move(v)); }
    template <typename T> bool contains() const { return m_data.count(std::type_index(typeid(T))) != 0; }
    template <typename T> T& get() {
        auto it = m_data.find(std::type_index(typeid(T)));
        if (it == m_data.end()) throw std::logic_error("ade shim: metadata is not set");
        return *std::any_cast<T>(it->second.get());
    }
    template <typename T> const T& get() const { return const_cast<Metadata*>(this)->get<T>(); }
    template <typename T> T get(T def) const { return contains<T>() ? const_cast<Metadata*>(this)->get<T>() : def; }
    template <typename T> void erase() { m_data.erase(std::type_index(typeid(T))); }
private:
    std::unordered_map<std::type_index, std::shared_ptr<std::any>> m_data;
};

class Node {
public:
    std::vector<EdgeHandle> inEdges()  const { return m_in; }
    std::vector<EdgeHandle> outEdges() const { return m_out; }
    inline std::vector<NodeHandle> inNodes() const;
    inline std::vector<NodeHandle> outNodes() const;
    Metadata meta;
    std::vector<EdgeHandle> m_in, m_out;
};
class Edge {
public:
    NodeHandle srcNode() const { return m_src; }
    NodeHandle dstNode() const { return m_dst; }
    Metadata meta;
    NodeHandle m_src, m_dst;
};
inline std::vector<NodeHandle> Node::inNodes() const { std::vector<NodeHandle> r; for (auto& e : m_in) r.push_back(e->srcNode()); return r; }
inline std::vector<NodeHandle> Node::outNodes() const { std::vector<NodeHandle> r; for (auto& e : m_out) r.push_back(e->dstNode()); return r; }

class Graph {
public:
    Graph() = default;
    Graph(const Graph&) = delete;
    Graph& operator=(const Graph&) = delete;
    NodeHandle createNode() { m_nodes.push_back(std::make_shared<Node>()); return NodeHandle(m_nodes.back()); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) {
        auto e = std::make_shared<Edge>();
        e->m_src = s; e->m_dst = d;
        m_edges.push_back(e);
        EdgeHandle eh(e);
        s->m_out.push_back(eh); d->m_in.push_back(eh);
        return eh;
    }
    std::vector<NodeHandle> nodes() const { std::vector<NodeHandle> r; for (auto& n : m_nodes) r.emplace_back(n); return r; }
    Metadata& metadata() { return m_meta; }
    Metadata& metadata(const NodeHandle& h) { return h->meta; }
    Metadata& metadata(const EdgeHandle& h) { return h->meta; }
    const Metadata& metadata() const { return m_meta; }
    const Metadata& metadata(const NodeHandle& h) const { return h->meta; }
    const Metadata& metadata(const EdgeHandle& h) const { return h->meta; }
private:
    std::vector<std::shared_ptr<Node>> m_nodes;
    std::vector<std::shared_ptr<Edge>> m_edges;
    Metadata m_meta;
};

template <typename... Types>
class TypedGraph {
public:
    explicit TypedGraph(Graph& g) : m_g(&g) {}
    template <typename... Other> TypedGraph(const TypedGraph<Other...>& o) : m_g(o.m_g) {}
    NodeHandle createNode() { return m_g->createNode(); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) { return m_g->link(s, d); }
    std::vector<NodeHandle> nodes() const { return m_g->nodes(); }
    Metadata& metadata() const { return m_g->metadata(); }
    Metadata& metadata(const NodeHandle& h) const { return h->meta; }
    Metadata& metadata(const EdgeHandle& h) const { return h->meta; }
    Graph* m_g;
};
template <typename... Types> using ConstTypedGraph = TypedGraph<Types...>;

namespace passes {
struct PassContext { Graph& graph; };

class TopologicalSortData {
public:
    TopologicalSortData() = default;
    explicit TopologicalSortData(std::vector<NodeHandle> n) : m_nodes(std::move(n)) {}
    std::vector<NodeHandle> nodes() const { return m_nodes; }
    static const char* name() { return "TopologicalSortData"; }
private:
    std::vector<NodeHandle> m_nodes;
};

struct TopologicalSort {
    // Kahn's algorithm; which ready node comes next is the choice.
    void operator()(PassContext ctx) const {
        auto nodes = ctx.graph.nodes();
        std::unordered_map<Node*, size_t> missing;
        for (auto& n : nodes) missing[n.get()] = n->inEdges().size();
        std::vector<NodeHandle> ready, sorted;
        for (auto& n : nodes) if (missing[n.get()] == 0) ready.push_back(n);
        while (!ready.empty()) {
            int k = vp::choose(static_cast<int>(ready.size()));
            auto n = ready[k];
            ready.erase(ready.begin() + k);
            sorted.push_back(n);
            for (auto& e : n->outEdges())
                if (--missing[e->dstNode().get()] == 0) ready.push_back(e->dstNode());
        }
        if (sorted.size() != nodes.size()) throw std::logic_error("ade shim: graph has a cycle");
        ctx.graph.metadata().set(TopologicalSortData(sorted));
    }
    static const char* name() { return "TopologicalSort"; }
};
} // namespace passes

namespace util {
template <typename T> struct IndexedValue { size_t m_index; T m_value; };
template <typename T> size_t index(const IndexedValue<T>& v) { return v.m_index; }
template <typename T> T value(const IndexedValue<T>& v) { return v.m_value; }

template <typename Range> auto indexed(const Range& r) {
    using T = std::decay_t<decltype(*std::begin(r))>;
    std::vector<IndexedValue<T>> out; size_t i = 0;
    for (auto&& v : r) out.push_back(IndexedValue<T>{i++, v});
    return out;
}
template <typename Range, typename Pred> auto filter(const Range& r, Pred p) {
    using T = std::decay_t<decltype(*std::begin(r))>;
    std::vector<T> out;
    for (auto&& v : r) if (p(v)) out.push_back(v);
    return out;
}
template <typename Range, typename F> auto map(const Range& r, F f) {
    using T = std::decay_t<decltype(f(*std::begin(r)))>;
    std::vector<T> out;
    for (auto&& v : r) out.push_back(f(v));
    return out;
}
template <typename Range> Range toRange(const Range& r) { return r; }
template <typename R1, typename R2> auto zip(const R1& a, const R2& b) {
    using A = std::decay_t<decltype(*std::begin(a))>; using B = std::decay_t<decltype(*std::begin(b))>;
    std::vector<std::tuple<A, B>> out;
    auto i = std::begin(a); auto j = std::begin(b);
    for (; i != std::end(a) && j != std::end(b); ++i, ++j) out.emplace_back(*i, *j);
    return out;
}
inline std::vector<size_t> iota(size_t b, size_t e) { std::vector<size_t> r; for (; b < e; ++b) r.push_back(b); return r; }
inline std::vector<size_t> iota(size_t n) { return iota(0, n); }
template <typename C, typename Out, typename F> Out transform(C&& c, Out o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <typename C, typename P> bool any_of(C&& c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool all_of(C&& c, P p) { return std::all_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> void for_each(C&& c, P p) { std::for_each(std::begin(c), std::end(c), p); }
template <typename C, typename K> bool contains(const C& c, const K& k) { return c.find(k) != c.end(); }
template <typename C, typename V> auto find(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto find_if(C&& c, P p) { return std::find_if(std::begin(c), std::end(c), p); }
template <typename C, typename O> O copy(C&& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
} // namespace util
} // namespace ade

namespace std {
template <typename T> struct hash<ade::Handle<T>> { size_t operator()(const ade::Handle<T>& h) const { return std::hash<T*>()(h.get()); } };
}
