// Oracles for sdfg::graph and sdfg::helpers. The reference algorithms below are written over plain adjacency lists and
// share nothing with boost.
#include "common.hpp"

#include <algorithm>
#include <numeric>
#include "sdfg/graph/graph.h"
#include <iostream>
#include "sdfg/helpers/helpers.h"

using namespace vh;
using sdfg::graph::Edge;
using sdfg::graph::Graph;
using sdfg::graph::UndirectedGraph;
using sdfg::graph::Vertex;

namespace {

const Vertex NIL = boost::graph_traits<Graph>::null_vertex();

// A graph under test and, next to it, the model it was built from.
struct G {
    Graph g;
    std::vector<Vertex> v; // model index -> vertex
    std::map<Vertex, int> id;
    std::vector<std::pair<int, int>> e; // model edges, in insertion order
    std::vector<Edge> ed;
    std::vector<std::vector<int>> succ, pred; // with multiplicity
    std::string kind;
    int n() const { return (int) v.size(); }
    void index() {
        succ.assign(n(), {});
        pred.assign(n(), {});
        for (auto& [a, b] : e) {
            succ[a].push_back(b);
            pred[b].push_back(a);
        }
    }
    std::string str() const {
        std::string s = fmt("%s n=%d edges=", kind.c_str(), n());
        size_t lim = 0;
        for (auto& [a, b] : e) {
            s += fmt("%d>%d ", a, b);
            if (++lim > 120) {
                s += "...";
                break;
            }
        }
        return s;
    }
    uint64_t hash() const {
        uint64_t h = mix(n());
        for (auto& [a, b] : e) h = mix(h ^ ((uint64_t) a << 32 | (uint32_t) b));
        return h;
    }
};

struct Opt {
    int max_n = 14;
    bool acyclic = false;
    bool big = false;
    double max_density = 3.0;
};

void add_edges(std::vector<std::pair<int, int>>& es, Rng& rng, int n, const Opt& o, std::string& kind) {
    int style = (int) rng.below(9);
    auto put = [&](int a, int b) {
        if (o.acyclic) {
            if (a == b) return;
            if (a > b) std::swap(a, b);
        }
        es.push_back({a, b});
    };
    switch (style) {
        case 0: { // uniformly random
            kind = "random";
            int m = (int) rng.below((uint64_t) (n * o.max_density * rng.unit()) + 2);
            for (int i = 0; i < m && n; ++i) put((int) rng.below(n), (int) rng.below(n));
            break;
        }
        case 1: { // control-flow like: a chain with branches, joins and loops
            kind = "cfg";
            for (int i = 0; i + 1 < n; ++i)
                if (rng.chance(0.85)) put(i, i + 1);
            int k = (int) rng.below(n + 1);
            for (int i = 0; i < k && n; ++i) {
                int a = (int) rng.below(n), b = (int) rng.below(n);
                put(a, b);
            }
            break;
        }
        case 2: { // binary-branching tree with joins: many exits
            kind = "tree";
            for (int i = 1; i < n; ++i) put((int) rng.below(i), i);
            int k = (int) rng.below(n / 2 + 1);
            for (int i = 0; i < k; ++i) put((int) rng.below(n), (int) rng.below(n));
            break;
        }
        case 3: { // structured: nested diamonds and loops
            kind = "structured";
            int cur = 0, i = 1;
            while (i < n) {
                int t = (int) rng.below(4);
                if (t == 0 && i + 2 < n) {
                    put(cur, i);
                    put(cur, i + 1);
                    put(i, i + 2);
                    put(i + 1, i + 2);
                    cur = i + 2;
                    i += 3;
                } else if (t == 1) {
                    put(cur, i);
                    if (!o.acyclic) put(i, cur);
                    cur = i++;
                } else if (t == 2 && i + 1 < n) {
                    put(cur, i);
                    put(i, i + 1);
                    if (!o.acyclic) put(i + 1, i);
                    put(cur, i + 1);
                    cur = i + 1;
                    i += 2;
                } else {
                    put(cur, i);
                    cur = i++;
                }
            }
            break;
        }
        case 4: { // dense
            kind = "dense";
            double p = rng.unit();
            int lim = std::min(n, o.big ? 60 : (int) (2 + o.max_density * 2));
            for (int a = 0; a < lim; ++a)
                for (int b = 0; b < lim; ++b)
                    if (rng.chance(p)) put(a, b);
            break;
        }
        case 5: { // disjoint components, isolated vertices, self loops
            kind = "components";
            int k = 1 + (int) rng.below(4);
            for (int i = 0; i < n; ++i) {
                if (rng.chance(0.2)) continue;
                int j = i + k * (int) rng.below(3);
                if (j < n && j != i) rng.chance(0.5) ? put(i, j) : put(j, i);
                if (rng.chance(0.15)) put(i, i);
            }
            break;
        }
        case 6: { // multigraph: few vertices, repeated edges
            kind = "multi";
            int m = (int) rng.below((uint64_t) (n * o.max_density) + 3);
            int w = std::max(1, n / 2);
            for (int i = 0; i < m; ++i) put((int) rng.below(w), (int) rng.below(n ? n : 1));
            if (m && es.size())
                for (int i = 0; i < 3; ++i) es.push_back(es[rng.below(es.size())]);
            break;
        }
        case 7: { // irreducible: loops with several entries
            kind = "irreducible";
            for (int i = 0; i + 1 < n; ++i) put(i, i + 1);
            for (int i = 0; i + 3 < n; i += 3) {
                put(i, i + 2);
                put(i + 2, i + 1);
                if (rng.chance(0.5)) put(i + 3, i + 1);
            }
            break;
        }
        default: { // long chain, cycles of various lengths
            kind = "cycle";
            for (int i = 0; i + 1 < n; ++i) put(i, i + 1);
            if (n > 1 && rng.chance(0.7)) put(n - 1, (int) rng.below(n));
            if (n > 2 && rng.chance(0.4)) put((int) rng.below(n), (int) rng.below(n));
        }
    }
}

G make_graph(Rng& rng, const Opt& o, int min_n = 1) {
    G r;
    int n = min_n + (int) rng.below((uint64_t) (o.max_n - min_n + 1));
    if (rng.chance(0.25)) n = std::max(min_n, std::min(n, 5));
    std::vector<std::pair<int, int>> es;
    add_edges(es, rng, n, o, r.kind);
    for (auto it = es.begin(); it != es.end();)
        if (it->first >= n || it->second >= n) it = es.erase(it);
        else ++it;
    // relabel, so that the model order says nothing about the order of insertion
    std::vector<int> perm(n);
    std::iota(perm.begin(), perm.end(), 0);
    if (rng.chance(0.6)) rng.shuffle(perm);
    if (rng.chance(0.5)) rng.shuffle(es);

    // build, sometimes through a history of removals
    std::vector<Vertex> junk;
    std::vector<Vertex> slot(n, NIL);
    std::vector<int> order(n);
    std::iota(order.begin(), order.end(), 0);
    if (rng.chance(0.5)) rng.shuffle(order);
    bool history = rng.chance(0.4);
    for (int i : order) {
        if (history && rng.chance(0.3)) junk.push_back(boost::add_vertex(r.g));
        slot[i] = boost::add_vertex(r.g);
    }
    r.v.resize(n);
    for (int i = 0; i < n; ++i) r.v[i] = slot[i];
    if (history)
        for (auto j : junk)
            for (int k = 0; k < 2 && n; ++k) {
                boost::add_edge(j, slot[rng.below(n)], r.g);
                boost::add_edge(slot[rng.below(n)], j, r.g);
            }
    std::vector<Edge> tmp;
    for (auto& [a, b] : es) {
        if (history && rng.chance(0.15)) tmp.push_back(boost::add_edge(slot[rng.below(n)], slot[rng.below(n)], r.g).first);
        r.ed.push_back(boost::add_edge(slot[perm[a]], slot[perm[b]], r.g).first);
        r.e.push_back({perm[a], perm[b]});
    }
    for (auto& t : tmp) boost::remove_edge(t, r.g);
    for (auto j : junk) {
        boost::clear_vertex(j, r.g);
        boost::remove_vertex(j, r.g);
    }
    for (int i = 0; i < n; ++i) r.id[r.v[i]] = i;
    r.index();
    return r;
}

// The graph equals the model: same vertices in number and identity, same edge multiset, in and out.
std::string same_as_model(const G& g) {
    if ((int) boost::num_vertices(g.g) != g.n()) return fmt("graph has %d vertices, had %d", (int) boost::num_vertices(g.g), g.n());
    if (boost::num_edges(g.g) != g.e.size()) return fmt("graph has %d edges, had %d", (int) boost::num_edges(g.g), (int) g.e.size());
    std::multiset<std::pair<int, int>> want(g.e.begin(), g.e.end()), got, gotin, gotout;
    for (auto [a, b] = boost::vertices(g.g); a != b; ++a) {
        if (!g.id.count(*a)) return "graph holds a vertex it did not hold before";
        int x = g.id.at(*a);
        for (auto [p, q] = boost::out_edges(*a, g.g); p != q; ++p) {
            auto t = boost::target(*p, g.g);
            if (!g.id.count(t)) return "edge to a foreign vertex";
            gotout.insert({x, g.id.at(t)});
        }
        for (auto [p, q] = boost::in_edges(*a, g.g); p != q; ++p) {
            auto s = boost::source(*p, g.g);
            if (!g.id.count(s)) return "edge from a foreign vertex";
            gotin.insert({g.id.at(s), x});
        }
    }
    if (gotout != want) return "out edges changed";
    if (gotin != want) return "in edges changed";
    return "";
}

std::vector<char> reach(const std::vector<std::vector<int>>& succ, int s, int without = -1) {
    std::vector<char> r(succ.size(), 0);
    if (s == without) return r;
    std::vector<int> st{s};
    r[s] = 1;
    while (!st.empty()) {
        int x = st.back();
        st.pop_back();
        for (int y : succ[x])
            if (y != without && !r[y]) {
                r[y] = 1;
                st.push_back(y);
            }
    }
    return r;
}

// Immediate dominators by definition: d dominates v iff removing d cuts v off. -1: none.
std::vector<int> idoms(const std::vector<std::vector<int>>& succ, int s) {
    int n = (int) succ.size();
    auto r = reach(succ, s);
    std::vector<std::vector<char>> cut(n);
    for (int d = 0; d < n; ++d)
        if (r[d]) cut[d] = reach(succ, s, d);
    std::vector<int> cnt(n, 0);
    for (int v = 0; v < n; ++v)
        if (r[v])
            for (int d = 0; d < n; ++d)
                if (d != v && r[d] && !cut[d][v]) ++cnt[v];
    std::vector<int> id(n, -1);
    for (int v = 0; v < n; ++v)
        if (r[v])
            for (int d = 0; d < n; ++d)
                if (d != v && r[d] && !cut[d][v] && cnt[d] == cnt[v] - 1) id[v] = d;
    return id;
}

int dom_size(Ctx& ctx, Rng& rng, uint64_t c) {
    if (c % 40 == 39) return ctx.thorough ? 400 : 220;
    return c % 5 == 4 ? 60 : 14;
}

} // namespace

// ---- dominators -------------------------------------------------------------------------------------------------

VH_PROP(G01) {
    Opt o;
    o.max_n = dom_size(ctx, rng, ctx.case_no);
    o.big = o.max_n > 14;
    G g = make_graph(rng, o);
    int s = (int) rng.below(g.n());
    if (rng.chance(0.5))
        for (int i = 0; i < g.n(); ++i)
            if (g.pred[i].empty()) {
                s = i;
                break;
            }
    auto want = idoms(g.succ, s);
    auto tree = sdfg::graph::dominator_tree(g.g, g.v[s]);
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("dominator-tree-changes-graph", changed + " " + g.str());
    if ((int) tree.size() != g.n()) ctx.violation("dominator-tree-keys", fmt("%zu entries for %d vertices; ", tree.size(), g.n()) + g.str());
    int nontriv = 0;
    for (int i = 0; i < g.n(); ++i) {
        auto it = tree.find(g.v[i]);
        if (it == tree.end()) {
            ctx.violation("dominator-tree-keys", fmt("vertex %d is missing; ", i) + g.str());
            continue;
        }
        int got = it->second == NIL ? -1 : g.id.count(it->second) ? g.id[it->second] : -2;
        if (got != want[i])
            ctx.violation("wrong-immediate-dominator", fmt("start %d, vertex %d: got %d, want %d; ", s, i, got, want[i]) + g.str());
        if (want[i] >= 0) ++nontriv;
    }
    ctx.event("dominators-compared", g.n());
    ctx.event("non-root-dominators", nontriv);
    if (nontriv > 1) ctx.nontrivial(g.hash() ^ mix(s));
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}, {"start", s}, {"idoms", want}});
}

// ---- post-dominators --------------------------------------------------------------------------------------------

VH_PROP(G02) {
    Opt o;
    o.max_n = dom_size(ctx, rng, ctx.case_no);
    o.big = o.max_n > 14;
    G g = make_graph(rng, o);
    std::vector<int> exits;
    for (int i = 0; i < g.n(); ++i)
        if (g.succ[i].empty()) exits.push_back(i);
    if (exits.empty()) { // every program has an exit
        int x = g.n();
        Vertex nv = boost::add_vertex(g.g);
        g.v.push_back(nv);
        g.id[nv] = x;
        int k = 1 + (int) rng.below(2);
        for (int i = 0; i < k; ++i) {
            int a = (int) rng.below(x);
            g.ed.push_back(boost::add_edge(g.v[a], nv, g.g).first);
            g.e.push_back({a, x});
        }
        g.index();
        exits = {x};
    }
    int n = g.n();
    // reference: reversed graph with a virtual exit n
    std::vector<std::vector<int>> rs(n + 1);
    for (auto& [a, b] : g.e) rs[b].push_back(a);
    for (int x : exits) rs[n].push_back(x);
    auto want = idoms(rs, n);

    int rounds = 1 + (int) rng.below(3); // asked repeatedly, as analyses do
    int nontriv = 0;
    for (int r = 0; r < rounds; ++r) {
        auto tree = sdfg::graph::post_dominator_tree(g.g);
        std::string changed = same_as_model(g);
        if (!changed.empty()) {
            ctx.violation("post-dominator-tree-changes-graph", changed + fmt(" (call %d) ", r + 1) + g.str());
            break;
        }
        if ((int) tree.size() != n) ctx.violation("post-dominator-tree-keys", fmt("%zu entries for %d vertices; ", tree.size(), n) + g.str());
        nontriv = 0;
        for (int i = 0; i < n; ++i) {
            auto it = tree.find(g.v[i]);
            if (it == tree.end()) {
                ctx.violation("post-dominator-tree-keys", fmt("vertex %d is missing; ", i) + g.str());
                continue;
            }
            int got = it->second == NIL ? -1 : g.id.count(it->second) ? g.id[it->second] : -2;
            int w = want[i] == n ? -1 : want[i];
            if (got == -2) ctx.violation("post-dominator-not-in-graph", fmt("vertex %d; ", i) + g.str());
            else if (got != w)
                ctx.violation("wrong-immediate-post-dominator", fmt("vertex %d: got %d, want %d; ", i, got, w) + g.str());
            if (w >= 0) ++nontriv;
        }
        ctx.event("post-dominators-compared", n);
    }
    ctx.event("calls", rounds);
    if (exits.size() > 1) ctx.event("several-exits");
    if (nontriv > 1) ctx.nontrivial(g.hash());
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}, {"exits", exits}});
}

// ---- components -------------------------------------------------------------------------------------------------

VH_PROP(G03) {
    Opt o;
    o.max_n = ctx.case_no % 40 == 39 ? 300 : ctx.case_no % 5 == 4 ? 60 : 14;
    o.max_density = rng.chance(0.5) ? 1.2 : 3;
    G g = make_graph(rng, o, rng.chance(0.02) ? 0 : 1);
    int n = g.n();
    std::vector<std::vector<char>> R(n);
    for (int i = 0; i < n; ++i) R[i] = reach(g.succ, i);
    auto [num, comp] = sdfg::graph::strongly_connected_components(g.g);
    std::set<size_t> ids;
    if ((int) comp.size() != n) ctx.violation("scc-keys", fmt("%zu entries for %d vertices; ", comp.size(), n) + g.str());
    for (int i = 0; i < n; ++i) {
        if (!comp.count(g.v[i])) {
            ctx.violation("scc-keys", fmt("vertex %d missing; ", i) + g.str());
            return;
        }
        ids.insert(comp[g.v[i]]);
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) {
            bool want = R[i][j] && R[j][i], got = comp[g.v[i]] == comp[g.v[j]];
            if (want != got)
                ctx.violation("wrong-scc", fmt("%d and %d: %s; ", i, j, want ? "mutually reachable, reported apart" : "not mutually reachable, reported together") + g.str());
        }
    if ((int) ids.size() != num) ctx.violation("scc-count", fmt("reported %d, components %zu; ", (int) num, ids.size()) + g.str());
    if (!ids.empty() && *ids.rbegin() >= (size_t) num) ctx.violation("scc-index", "component index out of range; " + g.str());

    std::vector<std::vector<int>> und(n);
    for (auto& [a, b] : g.e) und[a].push_back(b), und[b].push_back(a);
    std::vector<int> wc(n, -1);
    int nw = 0;
    for (int i = 0; i < n; ++i)
        if (wc[i] < 0) {
            auto r = reach(und, i);
            for (int j = 0; j < n; ++j)
                if (r[j]) wc[j] = nw;
            ++nw;
        }
    auto [wnum, wcomp] = sdfg::graph::weakly_connected_components(g.g);
    if ((int) wcomp.size() != n) ctx.violation("wcc-keys", fmt("%zu entries for %d vertices; ", wcomp.size(), n) + g.str());
    if ((int) wnum != nw) ctx.violation("wcc-count", fmt("reported %d, want %d; ", (int) wnum, nw) + g.str());
    for (int i = 0; i < n; ++i) {
        if (!wcomp.count(g.v[i])) {
            ctx.violation("wcc-keys", fmt("vertex %d missing; ", i) + g.str());
            return;
        }
        if (wcomp.at(g.v[i]) >= (size_t) wnum) ctx.violation("wcc-index", "component index out of range; " + g.str());
        for (int j = 0; j < i; ++j)
            if ((wc[i] == wc[j]) != (wcomp.at(g.v[i]) == wcomp.at(g.v[j])))
                ctx.violation("wrong-wcc", fmt("%d and %d; ", i, j) + g.str());
    }
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("components-change-graph", changed + " " + g.str());
    ctx.event("pairs-compared", (uint64_t) n * (n ? n - 1 : 0));
    if (num != n && n) ctx.event("graphs-with-cycles");
    if (nw > 1) ctx.event("graphs-in-several-parts");
    if (n > 2 && !g.e.empty()) ctx.nontrivial(g.hash());
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}, {"scc", (int) num}, {"wcc", nw}});
}

// ---- topological order ------------------------------------------------------------------------------------------

VH_PROP(G04) {
    Opt o;
    o.max_n = ctx.case_no % 40 == 39 ? 600 : ctx.case_no % 5 == 4 ? 60 : 12;
    o.acyclic = rng.chance(0.55);
    o.max_density = rng.chance(0.5) ? 0.9 : 3;
    G g = make_graph(rng, o, rng.chance(0.02) ? 0 : 1);
    int n = g.n();
    // Kahn's algorithm decides acyclicity
    std::vector<int> indeg(n, 0), q;
    for (auto& [a, b] : g.e) ++indeg[b];
    for (int i = 0; i < n; ++i)
        if (!indeg[i]) q.push_back(i);
    size_t done = 0;
    while (done < q.size())
        for (int y : g.succ[q[done++]])
            if (--indeg[y] == 0) q.push_back(y);
    bool dag = (int) q.size() == n;
    bool got = sdfg::graph::is_acyclic(g.g);
    if (got != dag) ctx.violation("wrong-acyclicity", fmt("reported %s; ", got ? "acyclic" : "cyclic") + g.str());
    bool threw = false;
    std::list<Vertex> order;
    try {
        order = sdfg::graph::topological_sort(g.g);
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw == dag) ctx.violation(dag ? "topological-sort-rejects-dag" : "topological-sort-accepts-cycle", g.str());
    if (dag && !threw) {
        std::vector<int> pos(n, -1);
        int i = 0;
        for (auto v : order) {
            if (!g.id.count(v) || pos[g.id[v]] >= 0) {
                ctx.violation("topological-order-not-a-permutation", g.str());
                return;
            }
            pos[g.id[v]] = i++;
        }
        if (i != n) ctx.violation("topological-order-not-a-permutation", fmt("%d of %d; ", i, n) + g.str());
        else
            for (auto& [a, b] : g.e)
                if (pos[a] >= pos[b]) ctx.violation("topological-order-breaks-edge", fmt("%d>%d; ", a, b) + g.str());
        ctx.event("edges-ordered", g.e.size());
    }
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("topological-sort-changes-graph", changed + " " + g.str());
    ctx.event(dag ? "dags" : "cyclic");
    if (g.e.size() > 1) ctx.nontrivial(g.hash());
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}, {"dag", dag}});
}

// ---- depth-first search -----------------------------------------------------------------------------------------

VH_PROP(G05) {
    Opt o;
    o.max_n = ctx.case_no % 40 == 39 ? 500 : ctx.case_no % 5 == 4 ? 60 : 12;
    G g = make_graph(rng, o);
    int n = g.n(), s = (int) rng.below(n);
    auto list = sdfg::graph::depth_first_search(g.g, g.v[s]);
    // A discovery order of a complete depth-first search: every vertex once, the start first, and for every vertex v
    // that is not a root the search stack (the chain of open vertices) must contain a predecessor of v below which
    // everything was exhausted. Checked by simulating the stack.
    std::vector<int> ord;
    std::vector<char> seen(n, 0);
    bool ok = true;
    for (auto v : list) {
        if (!g.id.count(v) || seen[g.id[v]]) {
            ok = false;
            break;
        }
        seen[g.id[v]] = 1;
        ord.push_back(g.id[v]);
    }
    if (!ok || (int) ord.size() != n) {
        ctx.violation("dfs-not-every-vertex-once", fmt("start %d, %zu visited of %d; ", s, ord.size(), n) + g.str());
        return;
    }
    if (ord[0] != s) ctx.violation("dfs-does-not-start-at-start", fmt("start %d, first %d; ", s, ord[0]) + g.str());
    std::vector<int> stack;
    std::vector<char> disc(n, 0);
    std::vector<int> close(n, -1), open(n, -1);
    int clock = 0;
    std::vector<int> par(n, -1);
    for (int v : ord) {
        while (!stack.empty()) {
            int t = stack.back();
            bool adj = std::find(g.succ[t].begin(), g.succ[t].end(), v) != g.succ[t].end();
            if (adj) break;
            // t is left behind: all of its successors must have been discovered
            for (int y : g.succ[t])
                if (!disc[y]) {
                    ctx.violation("dfs-order", fmt("start %d: %d discovered while %d still has the undiscovered successor %d; ", s, v, t, y) + g.str());
                    return;
                }
            close[t] = clock++;
            stack.pop_back();
        }
        par[v] = stack.empty() ? -1 : stack.back();
        disc[v] = 1;
        open[v] = clock++;
        stack.push_back(v);
    }
    while (!stack.empty()) close[stack.back()] = clock++, stack.pop_back();

    // Back edges: an edge is a back edge iff its target is open (an ancestor of its source, or the source itself).
    auto be = sdfg::graph::back_edges(g.g, g.v[s]);
    std::multiset<std::pair<int, int>> got, want;
    std::set<void*> props;
    for (auto& e : be) {
        auto a = boost::source(e, g.g), b = boost::target(e, g.g);
        if (!g.id.count(a) || !g.id.count(b)) {
            ctx.violation("back-edge-not-in-graph", g.str());
            return;
        }
        got.insert({g.id[a], g.id[b]});
        bool is_edge = std::find(g.ed.begin(), g.ed.end(), e) != g.ed.end();
        if (!is_edge) ctx.violation("back-edge-not-in-graph", g.str());
        if (!props.insert(e.get_property()).second) ctx.violation("back-edge-twice", g.str());
    }
    for (auto& [a, b] : g.e)
        if (open[b] <= open[a] && close[a] <= close[b]) want.insert({a, b});
    if (got != want) {
        // another depth-first search of the same graph may classify differently, but the set must make the rest acyclic
        // and hold only edges that close a cycle
        std::string d = "got:";
        for (auto& [a, b] : got) d += fmt(" %d>%d", a, b);
        d += " want:";
        for (auto& [a, b] : want) d += fmt(" %d>%d", a, b);
        std::multiset<std::pair<int, int>> rest(g.e.begin(), g.e.end());
        bool sub = true;
        for (auto& p : got) {
            auto it = rest.find(p);
            if (it == rest.end()) {
                sub = false;
                break;
            }
            rest.erase(it);
        }
        std::vector<std::vector<int>> rs(n);
        for (auto& [a, b] : rest) rs[a].push_back(b);
        bool cyc = false;
        for (auto& [a, b] : rest)
            if (reach(rs, b)[a]) cyc = true;
        bool needless = false;
        for (auto& [a, b] : got)
            if (!reach(g.succ, b)[a]) needless = true;
        if (!sub || cyc || needless) ctx.violation("wrong-back-edges", fmt("start %d, %s; ", s, d.c_str()) + g.str());
        else ctx.violation("back-edges-disagree-with-search-order", fmt("start %d, %s; ", s, d.c_str()) + g.str());
    }
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("dfs-changes-graph", changed + " " + g.str());
    ctx.event("vertices-visited", n);
    ctx.event("back-edges", want.size());
    if (g.e.size() > 1) ctx.nontrivial(g.hash() ^ mix(s));
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}, {"start", s}, {"order", ord}});
}

// ---- simple paths -----------------------------------------------------------------------------------------------

namespace {
// Every edge sequence from a to b that repeats no vertex (a itself only as the last one, when a == b).
void ref_paths(const G& g, const std::vector<std::vector<int>>& oute, int at, int b, std::vector<char>& used, std::vector<int>& cur,
               std::set<std::vector<int>>& out, size_t lim) {
    for (int e : oute[at]) {
        int t = g.e[e].second;
        if (out.size() > lim) return;
        if (t == b && !used[t]) {
            cur.push_back(e);
            out.insert(cur);
            cur.pop_back();
            continue;
        }
        if (used[t]) continue;
        used[t] = 1;
        cur.push_back(e);
        ref_paths(g, oute, t, b, used, cur, out, lim);
        cur.pop_back();
        used[t] = 0;
    }
}
} // namespace

VH_PROP(G06) {
    Opt o;
    bool wide = ctx.case_no % 10 == 9; // sparse but larger
    o.max_n = wide ? 26 : 8;
    o.max_density = wide ? 1.1 : 2.2;
    G g = make_graph(rng, o);
    int n = g.n(), a = (int) rng.below(n), b = (int) rng.below(n);
    if (a == b && rng.chance(0.7)) b = (int) rng.below(n);
    std::vector<std::vector<int>> oute(n);
    for (size_t i = 0; i < g.e.size(); ++i) oute[g.e[i].first].push_back((int) i);
    std::set<std::vector<int>> want;
    std::vector<char> used(n, 0);
    std::vector<int> cur;
    if (a != b) used[a] = 1;
    const size_t LIM = 3000;
    ref_paths(g, oute, a, b, used, cur, want, LIM);
    if (want.size() > LIM) {
        ctx.event("skipped-too-many-paths");
        return;
    }
    auto paths = sdfg::graph::all_simple_paths(g.g, g.v[a], g.v[b]);
    std::map<void*, int> eid;
    for (size_t i = 0; i < g.ed.size(); ++i) eid[g.ed[i].get_property()] = (int) i;
    std::set<std::vector<int>> got;
    // boost's empty edge property gives every edge its own address in listS graphs; should that not hold, edges are
    // compared by their ends
    bool unique = eid.size() == g.ed.size();
    auto norm = [&](const std::vector<int>& p) {
        if (unique) return p;
        std::vector<int> r;
        for (int e : p) r.push_back(g.e[e].first * n + g.e[e].second);
        return r;
    };
    size_t dup = 0;
    for (auto& p : paths) {
        std::vector<int> q;
        int at = a;
        std::vector<char> vis(n, 0);
        vis[a] = a != b;
        bool ok = true;
        for (auto& e : p) {
            int s = g.id.count(boost::source(e, g.g)) ? g.id[boost::source(e, g.g)] : -1;
            int t = g.id.count(boost::target(e, g.g)) ? g.id[boost::target(e, g.g)] : -1;
            if (s != at || t < 0) {
                ok = false;
                ctx.violation("path-not-connected", fmt("%d to %d; ", a, b) + g.str());
                break;
            }
            if (vis[t]) {
                ok = false;
                ctx.violation("path-not-simple", fmt("%d to %d repeats vertex %d; ", a, b, t) + g.str());
                break;
            }
            vis[t] = 1;
            at = t;
            q.push_back(unique ? eid.at(e.get_property()) : s * n + t);
        }
        if (!ok) continue;
        if (at != b || p.empty()) ctx.violation("path-wrong-end", fmt("%d to %d; ", a, b) + g.str());
        if (!got.insert(q).second) ++dup;
    }
    std::set<std::vector<int>> wn;
    for (auto& p : want) wn.insert(norm(p));
    if (unique && dup) ctx.violation("path-twice", fmt("%d to %d; ", a, b) + g.str());
    for (auto& p : wn)
        if (!got.count(p)) {
            ctx.violation("path-missing", fmt("%d to %d: %zu paths reported, %zu exist; ", a, b, paths.size(), want.size()) + g.str());
            break;
        }
    if (paths.size() != want.size()) ctx.violation("path-count", fmt("%d to %d: %zu paths reported, %zu exist; ", a, b, paths.size(), want.size()) + g.str());
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("paths-change-graph", changed + " " + g.str());
    ctx.event("paths", want.size());
    if (a == b) ctx.event("cycle-queries");
    if (want.size() > 1) ctx.nontrivial(g.hash() ^ mix(a * 1000 + b));
    if (ctx.case_no < 3) ctx.sample({{"graph", g.str()}, {"from", a}, {"to", b}, {"paths", want.size()}});
}

// ---- reversed and undirected views ------------------------------------------------------------------------------

VH_PROP(G07) {
    Opt o;
    o.max_n = ctx.case_no % 40 == 39 ? 400 : ctx.case_no % 5 == 4 ? 60 : 12;
    G g = make_graph(rng, o, rng.chance(0.02) ? 0 : 1);
    int n = g.n();
    std::multiset<std::pair<int, int>> want(g.e.begin(), g.e.end()), got, gotin;
    {
        auto r = sdfg::graph::reverse(g.g);
        if ((int) boost::num_vertices(r) != n) ctx.violation("reverse-vertices", g.str());
        if (boost::num_edges(r) != g.e.size()) ctx.violation("reverse-edges", g.str());
        for (auto [p, q] = boost::vertices(r); p != q; ++p) {
            for (auto [x, y] = boost::out_edges(*p, r); x != y; ++x) {
                auto s = boost::source(*x, r), t = boost::target(*x, r);
                if (s != *p) ctx.violation("reverse-edges", "source of an out edge; " + g.str());
                got.insert({g.id.at(t), g.id.at(s)});
            }
            for (auto [x, y] = boost::in_edges(*p, r); x != y; ++x)
                gotin.insert({g.id.at(boost::target(*x, r)), g.id.at(boost::source(*x, r))});
        }
        if (got != want || gotin != want) ctx.violation("reverse-edges", "edge sets differ; " + g.str());
    }
    auto u = sdfg::graph::undirected(g.g);
    auto& ug = *std::get<0>(u);
    auto& fw = std::get<1>(u);
    auto& bw = std::get<2>(u);
    if ((int) boost::num_vertices(ug) != n || (int) fw.size() != n || (int) bw.size() != n)
        ctx.violation("undirected-vertices", fmt("%d vertices, maps of %zu and %zu; ", (int) boost::num_vertices(ug), fw.size(), bw.size()) + g.str());
    std::set<Vertex> uset;
    for (auto [p, q] = boost::vertices(ug); p != q; ++p) uset.insert(*p);
    std::set<Vertex> image;
    for (int i = 0; i < n; ++i) {
        auto it = fw.find(g.v[i]);
        if (it == fw.end() || !uset.count(it->second) || !image.insert(it->second).second) {
            ctx.violation("undirected-mapping", fmt("vertex %d; ", i) + g.str());
            return;
        }
        auto jt = bw.find(it->second);
        if (jt == bw.end() || jt->second != g.v[i]) {
            ctx.violation("undirected-mapping-not-inverse", fmt("vertex %d; ", i) + g.str());
            return;
        }
    }
    std::multiset<std::pair<int, int>> uw, ugot;
    for (auto& [a, b] : g.e) uw.insert({std::min(a, b), std::max(a, b)});
    for (auto [p, q] = boost::edges(ug); p != q; ++p) {
        int a = g.id.at(bw.at(boost::source(*p, ug))), b = g.id.at(bw.at(boost::target(*p, ug)));
        ugot.insert({std::min(a, b), std::max(a, b)});
    }
    if (uw != ugot) ctx.violation("undirected-edges", fmt("%zu edges, want %zu; ", ugot.size(), uw.size()) + g.str());
    std::string changed = same_as_model(g);
    if (!changed.empty()) ctx.violation("views-change-graph", changed + " " + g.str());
    ctx.event("edges-compared", g.e.size() * 2);
    if (g.e.size() > 1) ctx.nontrivial(g.hash());
    if (ctx.case_no < 2) ctx.sample({{"graph", g.str()}});
}

// ---- string and set helpers -------------------------------------------------------------------------------------

VH_PROP(H01) {
    auto word = [&](const char* cs, int max) {
        std::string s;
        size_t n = rng.below(max + 1), k = strlen(cs);
        for (size_t i = 0; i < n; ++i) s += cs[rng.below(k)];
        return s;
    };
    uint64_t h = 0;
    for (int q = 0; q < 40; ++q) {
        // numbers
        std::string s = rng.chance(0.5) ? word("0123456789", 25) : word("0123456789-+. ax", 6);
        bool digits = !s.empty();
        for (char c : s) digits &= c >= '0' && c <= '9';
        if (sdfg::helpers::is_number(s) != digits) ctx.violation("is_number", "'" + s + "'");
        uint64_t u = rng.next() >> rng.below(64);
        int64_t i = (int64_t) rng.next() >> rng.below(64);
        if (rng.chance(0.1)) u = rng.pick({(uint64_t) 0, (uint64_t) UINT64_MAX, (uint64_t) 1 << 63});
        if (rng.chance(0.1)) i = rng.pick({INT64_MIN, INT64_MAX, (int64_t) -1});
        if (sdfg::helpers::parse_number_unsigned(std::to_string(u)) != u) ctx.violation("parse_unsigned", std::to_string(u));
        if (sdfg::helpers::parse_number_signed(std::to_string(i)) != i) ctx.violation("parse_signed", std::to_string(i));
        if (sdfg::helpers::parse_number_unsigned("true") != 1 || sdfg::helpers::parse_number_unsigned("false") != 0 ||
            sdfg::helpers::parse_number_signed("true") != 1 || sdfg::helpers::parse_number_signed("false") != 0)
            ctx.violation("parse_bool", "true/false");
        ctx.event("numbers");
        // suffixes
        std::string a = word("ab", 8), b = rng.chance(0.5) ? a.substr(rng.below(a.size() + 1)) : word("ab", 9);
        bool ew = b.size() <= a.size();
        for (size_t k = 0; ew && k < b.size(); ++k) ew = a[a.size() - b.size() + k] == b[k];
        if (sdfg::helpers::endswith(a, b) != ew) ctx.violation("endswith", "'" + a + "' '" + b + "'");
        // join and split are inverse where the delimiter does not occur in the parts
        std::vector<std::string> parts;
        int n = 1 + rng.below(6);
        for (int k = 0; k < n; ++k) parts.push_back(word("xyz ", 4));
        std::string del = rng.pick({",", "::", ", ", "ab", ";;;"});
        if (del == ", ")
            for (auto& x : parts)
                for (auto& c : x)
                    if (c == ' ') c = 'w';
        std::string want;
        for (int k = 0; k < n; ++k) want += (k ? del : "") + parts[k];
        auto j = sdfg::helpers::join(parts, del);
        if (j != want) ctx.violation("join", "'" + j + "', expected '" + want + "'");
        std::vector<std::string> back;
        sdfg::helpers::split(back, want, del);
        if (back != parts) ctx.violation("split", fmt("%zu parts of '%s' by '%s', expected %zu", back.size(), want.c_str(), del.c_str(), parts.size()));
        std::vector<int> none;
        if (sdfg::helpers::join(none, del) != "") ctx.violation("join", "of nothing");
        ctx.event("joins");
        // sets
        std::unordered_set<int> x, y;
        int nx = rng.below(8), ny = rng.below(8), span = 1 + rng.below(20);
        for (int k = 0; k < nx; ++k) x.insert(rng.below(span));
        for (int k = 0; k < ny; ++k) y.insert(rng.below(span));
        bool meet = false;
        for (int v : x) meet |= y.count(v) > 0;
        if (sdfg::helpers::sets_intersect(x, y) != meet || sdfg::helpers::sets_intersect(y, x) != meet)
            ctx.violation("sets_intersect", fmt("%zu and %zu elements, %s", x.size(), y.size(), meet ? "meet" : "disjoint"));
        ctx.event(meet ? "sets-meet" : "sets-disjoint");
        h = vh::mix(h ^ vh::hash_str(want) ^ u);
    }
    ctx.nontrivial(h);
    if (ctx.case_no < 2) ctx.sample({{"numbers", 40}, {"sets", 40}});
}

VH_MAIN
