// Analyses against what executions do: every fact an analysis states about a program is compared with recorded runs.
#include "xform.hpp"

#include "sdfg/analysis/assumptions_analysis.h"
#include "sdfg/analysis/data_dependency_analysis.h"
#include "sdfg/analysis/dominance_analysis.h"
#include "sdfg/analysis/loop_analysis.h"
#include "sdfg/analysis/users.h"

using namespace sdfg;
using namespace xf;
namespace an = sdfg::analysis;

namespace {

const char* use_name(an::Use u) {
    switch (u) {
        case an::READ: return "read";
        case an::WRITE: return "write";
        case an::VIEW: return "view";
        case an::MOVE: return "move";
        default: return "nop";
    }
}
std::string show(an::User* u) {
    std::string s = std::string(use_name(u->use())) + " of " + u->container();
    if (auto f = dynamic_cast<an::ForUser*>(u)) s += f->is_init() ? " (init)" : f->is_condition() ? " (condition)" : " (update)";
    for (auto& x : u->subsets()) s += " " + sub_text(x);
    if (auto e = u->element()) {
        s += " in element " + std::to_string(e->element_id());
        if (auto l = dynamic_cast<structured_control_flow::StructuredLoop*>(e)) s += " loop over " + l->indvar()->get_name();
    }
    return s;
}

// Subscripts like i*M + j, which docc takes for rows of M columns: the known finding symbolic-row of S05 and S06
bool linear_rows(an::User* u) {
    for (auto& sub : u->subsets())
        for (auto& x : sub)
            if (SymEngine::is_a<SymEngine::Add>(*x))
                for (auto& t : x->get_args())
                    if (symbolic::atoms(t).size() > 1) return true;
    return false;
}

// Programs for the known findings: for i < n0 { for j < n1 { A[sub] = A[sub] + 1 } }
std::optional<Case> directed(vh::Ctx& ctx, const types::IType& base, const symbolic::Condition& outer, const symbolic::Condition& inner, const data_flow::Subset& sub) {
    gn::Prog p;
    builder::StructuredSDFGBuilder b("f", FunctionType_CPU);
    types::Scalar i64(types::PrimitiveType::Int64), f64(types::PrimitiveType::Double);
    b.add_container("A", types::Pointer(), true);
    p.args["A"] = {types::PrimitiveType::Double, true};
    for (auto n : {"N", "M", "P"}) b.add_container(n, i64, true), p.args[n] = {types::PrimitiveType::Int64, false};
    for (auto n : {"i", "j"}) b.add_container(n, i64);
    auto i = symbolic::symbol("i"), j = symbolic::symbol("j");
    auto& l = b.add_for(b.subject().root(), i, outer, symbolic::zero(), symbolic::add(i, symbolic::one()));
    auto& k = b.add_for(l.root(), j, inner, symbolic::zero(), symbolic::add(j, symbolic::one()));
    auto& bl = b.add_block(k.root());
    auto& in = b.add_access(bl, "A");
    auto& out = b.add_access(bl, "A");
    auto& one = b.add_constant(bl, "1.0", f64);
    auto& t = b.add_tasklet(bl, data_flow::TaskletCode::fp_add, "_out", {"_in0", "_in1"});
    b.add_computational_memlet(bl, in, t, "_in0", sub, base);
    b.add_computational_memlet(bl, one, t, "_in1", {}, f64);
    b.add_computational_memlet(bl, t, "_out", out, sub, base);
    p.sdfg = b.move();
    Case c;
    c.p = std::move(p);
    vh::Rng r(5);
    for (int q = 0; q < 80 && c.args.size() < 40; ++q) {
        auto a = gn::arguments(r, c.p);
        auto res = run(*c.p.sdfg, a, true, 11, nullptr, true);
        if (!res.problem.empty()) continue;
        c.args.push_back(a), c.want.push_back(res);
    }
    if (c.args.empty()) {
        ctx.violation("directed", "the directed program has no runs");
        return std::nullopt;
    }
    ctx.event("directed programs");
    return c;
}
std::optional<Case> directed_rows(vh::Ctx& ctx) {
    types::Pointer base{types::Scalar(types::PrimitiveType::Double)};
    auto i = symbolic::symbol("i"), j = symbolic::symbol("j");
    return directed(ctx, base, symbolic::Lt(i, symbolic::symbol("M")), symbolic::Lt(j, symbolic::integer(6)),
                    {symbolic::add(symbolic::mul(i, symbolic::symbol("M")), j)});
}

// The user an access belongs to, if the analysis has one
struct Resolver {
    an::Users& users;
    std::map<std::tuple<const Element*, std::string, bool, int>, an::User*> cache;
    an::User* operator()(const ip::Access& a) {
        auto key = std::make_tuple(a.element, *a.container, a.write, a.role);
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        auto use = a.write ? an::WRITE : an::READ;
        auto* e = const_cast<Element*>(a.element);
        bool i = a.role == 1, c = a.role == 2, u = a.role == 3;
        an::User* r = e && users.has_user(*a.container, e, use, i, c, u) ? users.get_user(*a.container, e, use, i, c, u) : nullptr;
        return cache[key] = r;
    }
};

// Runs the program on the arguments of the case under the given monitors
void observe(vh::Ctx& ctx, Case& c, const std::function<void(ip::Machine&, size_t)>& install) {
    for (size_t k = 0; k < c.args.size(); ++k) {
        ip::Machine m(*c.p.sdfg);
        m.strict = true;
        m.check_dims = true;
        m.garbage = 11;
        m.limit = 20000;
        install(m, k);
        try {
            m.run(c.args[k]);
        } catch (const std::exception& e) {
            ctx.violation("harness", std::string("a run that had a result has none: ") + e.what());
        }
        ctx.event("runs observed");
        ctx.event("steps", m.steps);
    }
}
} // namespace

// Every executed read is connected to the write that produced the value it got
VH_PROP(L01) {
    gn::Opts o;
    o.budget = (int) rng.range(2, 14);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    o.parallel_bias = rng.chance(0.15);
    uint64_t seed = 0;
    auto c = ctx.case_no == 0 ? directed_rows(ctx) : make_case(ctx, rng, o, seed);
    if (!c) return;
    auto& s = *c->p.sdfg;
    std::string t = text(s);
    for (bool detailed : {false, true}) {
        builder::StructuredSDFGBuilder b(s);
        an::AnalysisManager am(s);
        auto& users = am.get<an::Users>();
        an::DataDependencyAnalysis dda(s, detailed);
        dda.run(am);
        std::map<std::string, std::unordered_map<an::User*, std::unordered_set<an::User*>>> defs;
        std::set<std::string> moved;
        for (auto& n : s.containers()) {
            if (s.is_external(n) || !users.moves(n).empty() ) moved.insert(n);
            defs[n] = dda.definitions(n);
        }
        Resolver res{users, {}};
        std::set<std::pair<an::User*, an::User*>> seen, bad;
        observe(ctx, *c, [&](ip::Machine& m, size_t) {
            auto last = std::make_shared<std::unordered_map<uint64_t, std::pair<an::User*, const std::string*>>>();
            m.on_access = [&, last](const ip::Access& a) {
                bool skip = moved.count(*a.container) || dynamic_cast<const structured_control_flow::Map*>(a.element);
                an::User* u = skip ? nullptr : res(a);
                if (!skip && !u) ctx.event("accesses without a user");
                if (a.write) {
                    for (size_t k = 0; k < a.size; ++k) (*last)[a.addr + k] = {u, a.container};
                    return;
                }
                if (!u) return;
                an::User* prev = nullptr;
                for (size_t k = 0; k < a.size; ++k) {
                    auto it = last->find(a.addr + k);
                    if (it == last->end() || !it->second.first || *it->second.second != *a.container) continue;
                    auto* w = it->second.first;
                    if (w == prev) continue;
                    prev = w;
                    ctx.event("reads of a written value");
                    if (!seen.insert({w, u}).second) continue;
                    ctx.event("distinct dependences");
                    auto& d = defs[*a.container];
                    auto x = d.find(w);
                    if (x != d.end() && x->second.count(u)) continue;
                    if (bad.insert({w, u}).second)
                        ctx.violation(
                            linear_rows(u) || linear_rows(w) ? "symbolic-row" : x == d.end() ? "definition unknown" : "dependence missed",
                            vh::fmt("%s: %s got the value of %s\n", detailed ? "detailed" : "coarse", show(u).c_str(), show(w).c_str()) + t
                        );
                }
            };
        });
        ctx.event(detailed ? "detailed analyses" : "coarse analyses");
        if (!seen.empty()) ctx.nontrivial(vh::hash_str(t));
    }
}

// Dependences between the iterations of a loop are reported
VH_PROP(L02) {
    gn::Opts o;
    o.budget = (int) rng.range(2, 14);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    o.parallel_bias = rng.chance(0.5);
    uint64_t seed = 0;
    auto c = ctx.case_no == 0 ? directed_rows(ctx) : make_case(ctx, rng, o, seed);
    if (!c) return;
    auto& s = *c->p.sdfg;
    std::string t = text(s);
    builder::StructuredSDFGBuilder b(s);
    an::AnalysisManager am(s);
    auto& users = am.get<an::Users>();
    an::DataDependencyAnalysis dda(s, true);
    dda.run(am);
    std::set<std::string> moved;
    for (auto& n : s.containers())
        if (s.is_external(n) || !users.moves(n).empty()) moved.insert(n);
    Resolver res{users, {}};
    namespace scf = structured_control_flow;
    struct Place {
        const std::string* write_c = nullptr;
        int64_t write = -1; // iteration
        const std::string* read_c = nullptr;
        int64_t read = -1; // iteration of a read of a value from before that iteration
    };
    struct Active {
        scf::StructuredLoop* loop;
        int64_t iter = -1;
        std::unordered_map<uint64_t, Place> at;
    };
    std::set<std::tuple<scf::StructuredLoop*, std::string, int>> told;
    auto need = [&](scf::StructuredLoop* l, const std::string& c, int kind) {
        // kind 0: a value flows or is overwritten after being read; 1: overwritten
        if (!told.insert({l, c, kind}).second) return;
        ctx.event(kind ? "carried overwrites" : "carried values");
        if (!dda.available(*l)) {
            ctx.event("loops without an answer");
            return;
        }
        auto& d = dda.dependencies(*l);
        auto it = d.find(c);
        bool rows = false;
        for (auto* u : an::UsersView(users, l->root()).uses(c)) rows |= linear_rows(u);
        if (it == d.end())
            ctx.violation(rows ? "symbolic-row" : kind ? "overwrite missed" : "dependence missed",
                          vh::fmt("the loop over %s carries a %s of %s that is not reported\n", l->indvar()->get_name().c_str(), kind ? "write-write dependence" : "read-write dependence", c.c_str()) + t);
        else if (!kind && it->second != an::LOOP_CARRIED_DEPENDENCY_READ_WRITE)
            ctx.violation(rows ? "symbolic-row" : "dependence understated",
                          vh::fmt("the loop over %s carries a read-write dependence of %s that is reported as write-write\n", l->indvar()->get_name().c_str(), c.c_str()) + t);
    };
    uint64_t iterations = 0;
    observe(ctx, *c, [&](ip::Machine& m, size_t) {
        auto st = std::make_shared<std::vector<Active>>();
        m.on_node = [&, st](const scf::ControlFlowNode& n, int what) {
            auto* l = dynamic_cast<const scf::StructuredLoop*>(&n);
            if (!l) return;
            if (what == 0) st->push_back({const_cast<scf::StructuredLoop*>(l), -1, {}});
            if (what == 1) st->pop_back();
            if (what == 2) ++st->back().iter, ++iterations;
        };
        m.on_access = [&, st](const ip::Access& a) {
            if (moved.count(*a.container)) return;
            if (a.element && !res(a)) return;
            for (auto& x : *st) {
                if (x.iter < 0 || a.element == x.loop || dynamic_cast<scf::Map*>(x.loop)) continue;
                for (size_t k = 0; k < a.size; ++k) {
                    auto& p = x.at[a.addr + k];
                    if (a.write) {
                        if (p.write >= 0 && p.write < x.iter && *p.write_c == *a.container) need(x.loop, *a.container, 1);
                        if (p.read >= 0 && p.read < x.iter && *p.read_c == *a.container) need(x.loop, *a.container, 0);
                        p.write = x.iter, p.write_c = a.container;
                    } else if (p.write != x.iter) {
                        if (p.write >= 0 && *p.write_c == *a.container) need(x.loop, *a.container, 0);
                        p.read = x.iter, p.read_c = a.container;
                    }
                }
            }
        };
    });
    ctx.event("iterations", iterations);
    if (!told.empty()) ctx.nontrivial(vh::hash_str(t));
}

// Orders claimed between users hold in every run
VH_PROP(L03) {
    gn::Opts o;
    o.budget = (int) rng.range(2, 12);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    uint64_t seed = 0;
    auto c = make_case(ctx, rng, o, seed);
    if (!c) return;
    auto& s = *c->p.sdfg;
    std::string t = text(s);
    builder::StructuredSDFGBuilder b(s);
    an::AnalysisManager am(s);
    auto& users = am.get<an::Users>();
    auto& dom = am.get<an::DominanceAnalysis>();
    Resolver res{users, {}};
    std::vector<std::vector<an::User*>> runs;
    std::vector<bool> ended;
    observe(ctx, *c, [&](ip::Machine& m, size_t) {
        runs.push_back({});
        m.on_access = [&](const ip::Access& a) {
            if (dynamic_cast<const structured_control_flow::Map*>(a.element)) return;
            if (auto* u = res(a)) {
                auto& r = runs.back();
                if (r.empty() || r.back() != u) r.push_back(u);
            }
        };
    });
    // users in order of their first appearance
    std::vector<an::User*> all;
    std::set<an::User*> known;
    for (auto& r : runs)
        for (auto* u : r)
            if (known.insert(u).second) all.push_back(u);
    if (all.size() < 2) return;
    // conditions are evaluated left to right, so that not all of their symbols are read: the other reads of an element count as read, too
    auto lazy = [](an::User* u) {
        auto* e = u->element();
        if (u->use() != an::READ) return false;
        if (dynamic_cast<structured_control_flow::IfElse*>(e)) return true;
        auto* f = dynamic_cast<an::ForUser*>(u);
        return f && f->is_condition();
    };
    // what one block does has no finer order than the dataflow's
    auto together = [](an::User* x, an::User* y) {
        if (x == y) return true;
        if (x->element() == y->element()) return x->use() == y->use() || dynamic_cast<structured_control_flow::Transition*>(x->element());
        auto* p = an::Users::scope(x);
        return p == an::Users::scope(y) && dynamic_cast<structured_control_flow::Block*>(p);
    };
    uint64_t pairs = 0;
    for (auto& r : runs) {
        std::map<an::User*, std::vector<size_t>> pos;
        for (size_t i = 0; i < r.size(); ++i) pos[r[i]].push_back(i);
        auto first = [&](an::User* u) { return pos.count(u) ? (int64_t) pos[u].front() : -1; };
        auto final_ = [&](an::User* u) { return pos.count(u) ? (int64_t) pos[u].back() : -1; };
        for (auto* x : all)
            for (auto* y : all) {
                if (together(x, y) || lazy(x) || lazy(y)) continue;
                if (pairs > 4000) break;
                if (first(y) >= 0 && dom.dominates(*x, *y)) {
                    ++pairs;
                    ctx.event("dominations observed");
                    if (first(x) < 0 || first(x) > first(y)) ctx.violation("dominates", show(x) + " does not precede " + show(y) + "\n" + t);
                }
                if (first(x) >= 0 && dom.post_dominates(*y, *x)) {
                    ++pairs;
                    ctx.event("post-dominations observed");
                    if (final_(y) < 0 || final_(y) < final_(x)) ctx.violation("post-dominates", show(y) + " does not follow " + show(x) + "\n" + t);
                }
            }
        // uses between and after
        for (int k = 0; k < 6 && r.size() > 2; ++k) {
            size_t i = rng.below(r.size()), j = rng.below(r.size());
            if (i > j) std::swap(i, j);
            if (lazy(r[i]) || lazy(r[j])) continue;
            auto after = users.all_uses_after(*r[i]);
            for (size_t q = i + 1; q < r.size(); ++q)
                if (!together(r[q], r[i]) && !after.count(r[q])) {
                    ctx.violation("uses after", show(r[q]) + " happens after " + show(r[i]) + " and is not listed\n" + t);
                    break;
                }
            ctx.event("uses after a user", r.size() - i - 1);
            if (j > i + 1 && !together(r[i], r[j]) && dom.dominates(*r[i], *r[j])) {
                // from the last execution of r[i] before j
                size_t l = j;
                while (l > i && r[l] != r[i]) --l;
                auto between = users.all_uses_between(*r[i], *r[j]);
                for (size_t q = l + 1; q < j; ++q)
                    if (!together(r[q], r[j]) && !together(r[q], r[i]) && !between.count(r[q])) {
                        ctx.violation("uses between", show(r[q]) + " happens between " + show(r[i]) + " and " + show(r[j]) + " and is not listed\n" + t);
                        break;
                    }
                ctx.event("uses between users", j - l - 1);
            }
        }
    }
    ctx.nontrivial(vh::hash_str(t));
}

// What the analyses assume about symbols at a place holds whenever the place is reached
VH_PROP(L04) {
    namespace scf = structured_control_flow;
    gn::Opts o;
    o.budget = (int) rng.range(2, 14);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    o.parallel_bias = rng.chance(0.4);
    uint64_t seed = 0;
    // the unit tests pin two wrong bounds: i <= N gives N >= init + 1, and subscripts are matched with the extents in reverse
    const char* pinned = nullptr;
    std::optional<Case> c;
    if (ctx.case_no < 2) {
        auto i = symbolic::symbol("i"), j = symbolic::symbol("j");
        types::Scalar f64(types::PrimitiveType::Double);
        pinned = ctx.case_no == 0 ? "le-bound" : "array-extent";
        if (ctx.case_no == 0)
            c = directed(ctx, types::Pointer(f64), symbolic::Le(i, symbolic::symbol("P")), symbolic::Lt(j, symbolic::integer(3)), {i});
        else
            c = directed(ctx, types::Pointer(types::Array(f64, symbolic::integer(4))), symbolic::Lt(i, symbolic::integer(8)), symbolic::Lt(j, symbolic::integer(3)), {i, j});
    } else
        c = make_case(ctx, rng, o, seed);
    if (!c) return;
    auto& s = *c->p.sdfg;
    std::string t = text(s);
    builder::StructuredSDFGBuilder b(s);
    an::AnalysisManager am(s);
    auto& aa = am.get<an::AssumptionsAnalysis>();
    std::set<std::string> told;
    auto tell = [&](const char* key, const std::string& m) {
        if (told.insert(key + m).second) ctx.violation(pinned ? pinned : key, m + "\n" + t);
    };
    bool any = false;
    std::map<std::pair<const scf::ControlFlowNode*, bool>, symbolic::Assumptions> known;
    auto at = [&](const scf::ControlFlowNode& n, bool trivial) -> const symbolic::Assumptions& {
        auto it = known.find({&n, trivial});
        if (it == known.end()) it = known.emplace(std::make_pair(&n, trivial), aa.get(const_cast<scf::ControlFlowNode&>(n), trivial)).first;
        return it->second;
    };
    vh::Rng pick(seed + 1);
    observe(ctx, *c, [&](ip::Machine& m, size_t) {
        auto stack = std::make_shared<std::vector<const scf::ControlFlowNode*>>();
        auto quiet = std::make_shared<bool>(false);
        auto visits = std::make_shared<std::map<const scf::ControlFlowNode*, int>>();
        auto value = [&m](const symbolic::Expression& e) -> std::optional<ip::i128> {
            try {
                for (auto& a : symbolic::atoms(e)) {
                    auto it = m.storage.find(a->get_name());
                    if (it == m.storage.end()) return std::nullopt;
                    for (auto x : it->second->init)
                        if (!x) return std::nullopt;
                }
                return m.integer(e);
            } catch (const std::exception&) {
                return std::nullopt;
            }
        };
        m.on_node = [&, value, stack, quiet, visits](const scf::ControlFlowNode& n, int what) {
            if (what == 0) stack->push_back(&n);
            if (what == 1) stack->pop_back();
            if (what != 0) return;
            if (!dynamic_cast<const scf::Block*>(&n) && !dynamic_cast<const scf::IfElse*>(&n) && !dynamic_cast<const scf::Return*>(&n)) return;
            if (++(*visits)[&n] > 12 && !pick.chance(0.1)) return; // the first visits, then a sample
            *quiet = true;
            auto* saved = m.reader;
            for (bool trivial : {false, true})
                for (auto& [sym, as] : at(n, trivial)) {
                    auto v = value(sym);
                    if (!v) continue;
                    auto low = [&](const symbolic::Expression& e, const char* what) {
                        if (e.is_null()) return;
                        auto x = value(e);
                        if (!x) return;
                        any = true;
                        ctx.event(std::string(what) + "s checked");
                        if (*x > *v) tell(what, vh::fmt("%s %s of %s is above its value (%lld, value %lld)", what, e->__str__().c_str(), sym->get_name().c_str(), (long long) *x, (long long) *v));
                    };
                    auto high = [&](const symbolic::Expression& e, const char* what) {
                        if (e.is_null()) return;
                        auto x = value(e);
                        if (!x) return;
                        any = true;
                        ctx.event(std::string(what) + "s checked");
                        if (*x < *v) tell(what, vh::fmt("%s %s of %s is below its value (%lld, value %lld)", what, e->__str__().c_str(), sym->get_name().c_str(), (long long) *x, (long long) *v));
                    };
                    for (auto& e : as.lower_bounds()) low(e, "lower bound");
                    for (auto& e : as.upper_bounds()) high(e, "upper bound");
                    low(as.tight_lower_bound(), "tight lower bound");
                    high(as.tight_upper_bound(), "tight upper bound");
                    low(as.lower_bound_deprecated(), "combined lower bound");
                    high(as.upper_bound_deprecated(), "combined upper bound");
                }
            m.reader = saved;
            *quiet = false;
        };
        m.on_access = [&, stack, quiet](const ip::Access& a) {
            if (*quiet || !a.write || a.memlet) return;
            for (auto* n : *stack) {
                if (a.element == n || !(dynamic_cast<const scf::Sequence*>(n) || dynamic_cast<const scf::IfElse*>(n))) continue;
                auto& as = at(*n, true);
                auto it = as.find(symbolic::symbol(*a.container));
                if (it != as.end() && it->second.constant()) tell("constant", *a.container + " is said to be constant where it is assigned");
            }
            ctx.event("assignments watched");
        };
    });
    if (any) ctx.nontrivial(vh::hash_str(t));
}
