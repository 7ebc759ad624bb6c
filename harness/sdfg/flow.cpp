// Dataflow graphs against a plain list of their nodes and memlets.
#include "xform.hpp"

#include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"

using namespace sdfg;
using namespace xf;
namespace df = sdfg::data_flow;

namespace {

struct MEdge {
    int src, dst;
    const df::Memlet* m;
    std::string src_conn, dst_conn;
};
struct Model {
    std::map<int, df::DataFlowNode*> nodes; // alive
    std::vector<MEdge> edges;
    std::map<int, std::string> label;
    std::map<int, bool> code;
    int next = 0;
    int add(df::DataFlowNode& n, const std::string& l, bool c) {
        nodes[next] = &n, label[next] = l, code[next] = c;
        return next++;
    }
    int in(int n) const {
        int k = 0;
        for (auto& e : edges) k += e.dst == n;
        return k;
    }
    int out(int n) const {
        int k = 0;
        for (auto& e : edges) k += e.src == n;
        return k;
    }
    std::string text() const {
        std::string s;
        for (auto& [k, n] : nodes) s += vh::fmt("%d:%s ", k, label.at(k).c_str());
        for (auto& e : edges) s += vh::fmt("%d->%d(%s,%s) ", e.src, e.dst, e.src_conn.c_str(), e.dst_conn.c_str());
        return s;
    }
};

struct Built {
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    structured_control_flow::Block* block;
    Model m;
};

// A random block: tasklets of one to three inputs, library functions, shared and repeated access nodes, several components
Built build(vh::Rng& r) {
    Built x;
    x.b = std::make_unique<builder::StructuredSDFGBuilder>("f", FunctionType_CPU);
    auto& b = *x.b;
    types::Scalar f64(types::PrimitiveType::Double);
    types::Array arr(f64, symbolic::integer(64));
    int nc = (int) r.range(1, 6);
    std::vector<std::string> cs;
    for (int i = 0; i < nc; ++i) {
        cs.push_back("c" + std::to_string(i));
        b.add_container(cs.back(), arr);
    }
    auto& bl = b.add_block(b.subject().root());
    x.block = &bl;
    std::vector<int> acc;
    auto access = [&] {
        auto n = r.pick(cs);
        acc.push_back(x.m.add(b.add_access(bl, n), n, false));
        return acc.back();
    };
    int k = (int) r.range(1, 14);
    bool reuse = r.chance(0.8);
    for (int t = 0; t < k; ++t) {
        int arity = (int) r.range(1, 3);
        bool lib = r.chance(0.2);
        if (lib) arity = std::min(arity, 2);
        static const df::TaskletCode one[] = {df::TaskletCode::assign, df::TaskletCode::fp_neg}, two[] = {df::TaskletCode::fp_add, df::TaskletCode::fp_sub, df::TaskletCode::fp_div};
        std::vector<std::string> ins;
        for (int i = 0; i < arity; ++i) ins.push_back("_in" + std::to_string(i + 1));
        df::CodeNode* c;
        if (lib)
            c = &b.add_library_node<math::cmath::CMathNode>(bl, DebugInfo(), arity == 1 ? math::cmath::CMathFunction::sin : math::cmath::CMathFunction::pow, types::PrimitiveType::Double);
        else
            c = &b.add_tasklet(bl, arity == 1 ? one[r.below(2)] : arity == 2 ? two[r.below(3)] : df::TaskletCode::fp_fma, "_out", ins);
        int me = x.m.add(*c, lib ? "lib" : "t", true);
        // several memlets of one library function may leave from its output
        for (auto& i : c->inputs()) {
            int s = -1;
            if (reuse && !acc.empty() && r.chance(0.7)) s = r.chance(0.4) ? acc.back() : r.pick(acc);
            if (s < 0) s = access();
            auto& a = static_cast<df::AccessNode&>(*x.m.nodes[s]);
            df::Subset sub{symbolic::integer(r.range(0, 9))};
            auto& e = lib ? b.add_computational_memlet(bl, a, static_cast<df::LibraryNode&>(*c), i, sub, arr) : b.add_computational_memlet(bl, a, static_cast<df::Tasklet&>(*c), i, sub, arr);
            x.m.edges.push_back({s, me, &e, "void", i});
        }
        int o = access();
        df::Subset sub{symbolic::integer(r.range(0, 9))};
        auto& on = static_cast<df::AccessNode&>(*x.m.nodes[o]);
        auto& e = lib ? b.add_computational_memlet(bl, static_cast<df::LibraryNode&>(*c), c->outputs().at(0), on, sub, arr) : b.add_computational_memlet(bl, static_cast<df::Tasklet&>(*c), c->outputs().at(0), on, sub, arr);
        x.m.edges.push_back({me, o, &e, c->outputs().at(0), "void"});
        if (r.chance(0.5)) acc.erase(acc.begin() + (long) r.below(acc.size()));
        if (acc.empty()) access();
    }
    return x;
}

std::string compare(vh::Ctx& ctx, Built& x) {
    auto& g = x.block->dataflow();
    const auto& cg = g;
    auto& m = x.m;
    std::map<const df::DataFlowNode*, int> id;
    for (auto& [k, n] : m.nodes) id[n] = k;
    size_t c = 0;
    for (auto& n : g.nodes()) {
        ++c;
        if (!id.count(&n)) return "a node nobody added is listed";
    }
    if (c != m.nodes.size()) return vh::fmt("%zu nodes are listed of %zu", c, m.nodes.size());
    std::set<const df::Memlet*> es;
    for (auto& e : g.edges()) es.insert(&e);
    if (es.size() != m.edges.size()) return vh::fmt("%zu memlets are listed of %zu", es.size(), m.edges.size());
    for (auto& e : m.edges) {
        if (!es.count(e.m)) return "a memlet is not listed";
        if (&e.m->src() != m.nodes[e.src] || &e.m->dst() != m.nodes[e.dst]) return "a memlet has other ends";
        if (e.m->src_conn() != e.src_conn || e.m->dst_conn() != e.dst_conn) return "a memlet has other connectors";
    }
    std::set<const df::DataFlowNode*> src, snk, rd, wr, data, tk, lb;
    for (auto& [k, n] : m.nodes) {
        std::multiset<const df::Memlet*> in, out, gin, gout;
        std::set<const df::DataFlowNode*> pre, suc;
        for (auto& e : m.edges) {
            if (e.dst == k) in.insert(e.m), pre.insert(m.nodes[e.src]);
            if (e.src == k) out.insert(e.m), suc.insert(m.nodes[e.dst]);
        }
        for (auto& e : g.in_edges(*n)) gin.insert(&e);
        for (auto& e : g.out_edges(*n)) gout.insert(&e);
        if (in != gin || out != gout) return vh::fmt("the memlets of node %d are others", k);
        if (g.in_degree(*n) != in.size() || g.out_degree(*n) != out.size()) return vh::fmt("the degree of node %d is another", k);
        auto p = cg.predecessors(*n), s = cg.successors(*n);
        if (std::set<const df::DataFlowNode*>(p.begin(), p.end()) != pre) return vh::fmt("the predecessors of node %d are others", k);
        if (std::set<const df::DataFlowNode*>(s.begin(), s.end()) != suc) return vh::fmt("the successors of node %d are others", k);
        if (in.empty()) src.insert(n);
        if (out.empty()) snk.insert(n);
        if (!m.code[k]) {
            data.insert(n);
            if (!out.empty()) rd.insert(n);
            if (!in.empty()) wr.insert(n);
        } else {
            (m.label[k] == "t" ? tk : lb).insert(n);
            auto& code = static_cast<df::CodeNode&>(*n);
            auto bi = g.in_edges_by_connector(code);
            auto bo = g.out_edges_by_connector(code);
            if (bi.size() != code.inputs().size() || bo.size() != code.outputs().size()) return "memlets by connector: another number";
            for (size_t i = 0; i < bi.size(); ++i) {
                const df::Memlet* w = nullptr;
                for (auto& e : m.edges)
                    if (e.dst == k && e.dst_conn == code.inputs()[i]) w = e.m;
                if (bi[i] != w) return vh::fmt("the memlet of input %zu of node %d is another", i, k);
            }
            for (size_t i = 0; i < bo.size(); ++i) {
                const df::Memlet* w = nullptr;
                for (auto& e : m.edges)
                    if (e.src == k && e.src_conn == code.outputs()[i]) w = e.m;
                if (bo[i] != w) return vh::fmt("the memlet of output %zu of node %d is another", i, k);
            }
        }
    }
    auto same = [](const auto& a, const std::set<const df::DataFlowNode*>& b) { return std::set<const df::DataFlowNode*>(a.begin(), a.end()) == b; };
    if (!same(g.sources(), src) || !same(cg.sources(), src)) return "the sources are others";
    if (!same(g.sinks(), snk) || !same(cg.sinks(), snk)) return "the sinks are others";
    if (!same(cg.reads(), rd)) return "the read nodes are others";
    if (!same(cg.writes(), wr)) return "the written nodes are others";
    if (!same(g.data_nodes(), data) || !same(cg.data_nodes(), data)) return "the access nodes are others";
    if (!same(g.tasklets(), tk) || !same(cg.tasklets(), tk)) return "the tasklets are others";
    if (!same(g.library_nodes(), lb) || !same(cg.library_nodes(), lb)) return "the library nodes are others";
    // components
    std::map<int, int> root;
    std::function<int(int)> find = [&](int a) { return root[a] == a ? a : root[a] = find(root[a]); };
    for (auto& [k, n] : m.nodes) root[k] = k;
    for (auto& e : m.edges) root[find(e.src)] = find(e.dst);
    std::map<int, size_t> cc;
    std::set<size_t> nums;
    auto comps = cg.weakly_connected_components();
    for (auto& [k, n] : m.nodes) {
        auto it = comps.second.find(n);
        if (it == comps.second.end()) return "a node has no component";
        auto [p, fresh] = cc.insert({find(k), it->second});
        if (!fresh && p->second != it->second) return "connected nodes are in different components";
        if (fresh && !nums.insert(it->second).second) return "unconnected nodes are in the same component";
    }
    if (comps.first != cc.size()) return vh::fmt("%zu components instead of %zu", (size_t) comps.first, cc.size());
    // order
    auto o1 = g.topological_sort();
    auto o2 = cg.topological_sort();
    std::map<const df::DataFlowNode*, size_t> pos;
    for (auto* n : o1) {
        if (!id.count(n)) return "the order lists an unknown node";
        if (!pos.insert({n, pos.size()}).second) return vh::fmt("the order lists node %d twice", id[n]);
    }
    if (pos.size() != m.nodes.size()) return vh::fmt("the order lists %zu nodes of %zu", pos.size(), m.nodes.size());
    for (auto& e : m.edges)
        if (pos[m.nodes[e.src]] > pos[m.nodes[e.dst]]) return vh::fmt("the order lists node %d after node %d, which uses it", e.src, e.dst);
    if (!std::equal(o1.begin(), o1.end(), o2.begin(), o2.end())) return "the order of the constant graph is another";
    ctx.event("orders checked");
    ctx.event("memlets checked", m.edges.size());
    // first and last accesses of a container in the order
    auto reach = [&](int a) {
        std::set<int> r{a};
        for (bool more = true; more;) {
            more = false;
            for (auto& e : m.edges)
                if (r.count(e.src) && r.insert(e.dst).second) more = true;
        }
        r.erase(a);
        return r;
    };
    std::set<std::string> names;
    for (auto& [k, n] : m.nodes)
        if (!m.code[k]) names.insert(m.label[k]);
    auto first = cg.dominators(), last = cg.post_dominators();
    auto last2 = g.post_dominators();
    if (first.size() != names.size() || last.size() != names.size() || last2.size() != names.size()) return "first or last accesses: another number of containers";
    for (auto& n : names) {
        if (!first.count(n) || !last.count(n) || !last2.count(n)) return "container " + n + " has no first or last access";
        auto* f = first.at(n);
        auto* l = last.at(n);
        if (f->data() != n || l->data() != n || last2.at(n)->data() != n) return "the first or last access of " + n + " is of another container";
        auto later = reach(id[l]), later2 = reach(id[last2.at(n)]);
        for (auto& [k, x] : m.nodes) {
            if (m.code[k] || m.label[k] != n) continue;
            if (reach(k).count(id[f])) return vh::fmt("node %d of %s precedes its first access %d", k, n.c_str(), id[f]);
            if (later.count(k) || later2.count(k)) return vh::fmt("node %d of %s follows its last access", k, n.c_str());
        }
        ctx.event("first and last accesses");
    }
    return "";
}
} // namespace

// What a dataflow graph says about itself is what was built
VH_PROP(F01) {
    auto x = build(rng);
    auto d = compare(ctx, x);
    if (!d.empty()) ctx.violation("graph", d + "\n" + x.m.text());
    ctx.event("graphs");
    if (x.m.edges.size() > 4) ctx.nontrivial(vh::hash_str(x.m.text()));
}

// Edits remove what they should and nothing else
VH_PROP(F02) {
    auto x = build(rng);
    auto& b = *x.b;
    auto& m = x.m;
    std::string log = m.text();
    int edits = (int) rng.range(1, 6);
    auto drop_edge = [&](size_t i) { m.edges.erase(m.edges.begin() + (long) i); };
    auto alive = [&](bool code) {
        std::vector<int> v;
        for (auto& [k, n] : m.nodes)
            if (m.code[k] == code) v.push_back(k);
        return v;
    };
    for (int q = 0; q < edits; ++q) {
        switch (rng.below(4)) {
            case 0: {
                if (m.edges.empty()) break;
                auto i = rng.below(m.edges.size());
                log += vh::fmt("\nremove memlet %d->%d(%s)", m.edges[i].src, m.edges[i].dst, m.edges[i].dst_conn.c_str());
                b.remove_memlet(*x.block, *m.edges[i].m);
                drop_edge(i);
                ctx.event("memlets removed");
                break;
            }
            case 1: {
                std::vector<int> v;
                for (auto& [k, n] : m.nodes)
                    if (!m.in(k) && !m.out(k)) v.push_back(k);
                if (v.empty()) break;
                auto k = rng.pick(v);
                log += vh::fmt("\nremove node %d", k);
                b.remove_node(*x.block, *m.nodes[k]);
                m.nodes.erase(k);
                ctx.event("nodes removed");
                break;
            }
            case 2: {
                auto v = alive(true);
                if (v.empty()) break;
                auto k = rng.pick(v);
                log += vh::fmt("\nclear code node %d", k);
                std::set<int> gone{k};
                for (size_t i = 0; i < m.edges.size();)
                    if (m.edges[i].src == k || m.edges[i].dst == k) {
                        gone.insert(m.edges[i].src), gone.insert(m.edges[i].dst);
                        drop_edge(i);
                    } else
                        ++i;
                b.clear_node(*x.block, static_cast<df::CodeNode&>(*m.nodes[k]));
                for (auto n : gone)
                    if (!m.in(n) && !m.out(n)) m.nodes.erase(n);
                ctx.event("code nodes cleared");
                break;
            }
            default: {
                auto v = alive(false);
                if (v.empty()) break;
                auto k = rng.pick(v);
                log += vh::fmt("\nclear access node %d", k);
                b.clear_node(*x.block, static_cast<df::AccessNode&>(*m.nodes[k]));
                // backwards: what computes the node goes, with the inputs nothing else uses
                std::vector<int> work{k};
                std::set<int> gone;
                while (!work.empty()) {
                    int c = work.back();
                    work.pop_back();
                    if (gone.count(c)) continue;
                    if (c != k && !m.code[c] && (m.in(c) || m.out(c))) {
                        if (m.out(c) || !m.in(c)) continue;
                        continue;
                    }
                    for (size_t i = 0; i < m.edges.size();)
                        if (m.edges[i].dst == c) {
                            work.push_back(m.edges[i].src);
                            drop_edge(i);
                        } else
                            ++i;
                    if (c != k || !m.out(c)) gone.insert(c);
                }
                for (auto n : gone) m.nodes.erase(n);
                ctx.event("access nodes cleared");
            }
        }
        auto d = compare(ctx, x);
        if (!d.empty()) {
            ctx.violation("edit", d + "\n" + log);
            return;
        }
    }
    ctx.nontrivial(vh::hash_str(log));
}
