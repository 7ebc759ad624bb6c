// Running programs before and after something changed them.
#pragma once
#include "gen.hpp"
#include "sdfg/analysis/analysis.h"
#include "sdfg/codegen/code_generators/c_code_generator.h"
#include "sdfg/codegen/instrumentation/arg_capture_plan.h"
#include "sdfg/codegen/instrumentation/instrumentation_plan.h"

namespace xf {
using namespace sdfg;
using gn::Prog;

// A program in text, for messages
inline std::string sub_text(const data_flow::Subset& s) {
    std::string r;
    for (auto& d : s) r += "[" + d->__str__() + "]";
    return r;
}
inline std::string assign_text(const control_flow::Assignments& a) {
    std::map<std::string, std::string> m;
    for (auto& e : a) m[e.first->get_name()] = e.second->__str__();
    std::string r;
    for (auto& e : m) r += (r.empty() ? "" : ", ") + e.first + " = " + e.second;
    return r.empty() ? "" : "{" + r + "}";
}
inline void text_of(structured_control_flow::ControlFlowNode& n, const std::string& in, std::string& o) {
    namespace scf = structured_control_flow;
    if (auto s = dynamic_cast<scf::Sequence*>(&n)) {
        for (size_t i = 0; i < s->size(); ++i) {
            auto c = s->at(i);
            if (dynamic_cast<scf::Sequence*>(&c.first)) {
                o += in + "seq\n";
                text_of(c.first, in + "  ", o);
            } else
                text_of(c.first, in, o);
            auto a = assign_text(c.second.assignments());
            if (!a.empty()) o += in + a + "\n";
        }
        return;
    }
    if (auto b = dynamic_cast<scf::Block*>(&n)) {
        auto& g = b->dataflow();
        std::string l;
        std::map<const data_flow::DataFlowNode*, int> id;
        for (auto* x : g.topological_sort()) id[x] = (int) id.size();
        auto acc = [&](const data_flow::DataFlowNode& x, const data_flow::Memlet& m) {
            auto& a = dynamic_cast<const data_flow::AccessNode&>(x);
            std::string r = a.data();
            if (!dynamic_cast<const data_flow::ConstantNode*>(&x)) r += "#" + std::to_string(id[&x]);
            return r + sub_text(m.subset());
        };
        for (auto* x : g.topological_sort()) {
            if (auto t = dynamic_cast<data_flow::Tasklet*>(x)) {
                l += in + "  ";
                for (auto* e : g.out_edges_by_connector(*t)) l += e ? acc(e->dst(), *e) + " " : "? ";
                l += "= " + std::to_string((int) t->code());
                for (auto* e : g.in_edges_by_connector(*t)) l += " " + (e ? acc(e->src(), *e) : "?");
                l += "\n";
            } else if (auto t = dynamic_cast<data_flow::LibraryNode*>(x)) {
                l += in + "  " + t->toStr();
                for (auto& e : g.out_edges(*t)) l += " > " + acc(e.dst(), e);
                for (auto& e : g.in_edges(*t)) l += " < " + acc(e.src(), e);
                l += "\n";
            } else
                for (auto& e : g.out_edges(*x)) {
                    if (e.type() == data_flow::MemletType::Reference)
                        l += in + "  " + acc(e.dst(), *(const data_flow::Memlet*) &e) + " is & of " + acc(*x, e) + " as " + e.base_type().print() + "\n";
                    else if (e.type() != data_flow::MemletType::Computational)
                        l += in + "  " + acc(e.dst(), e) + (e.type() == data_flow::MemletType::Dereference_Src ? " = * " : " * = ") + acc(*x, e) + " as " +
                             e.base_type().print() + "\n";
                }
        }
        o += in + "block\n" + l;
        return;
    }
    if (auto i = dynamic_cast<scf::IfElse*>(&n)) {
        for (size_t k = 0; k < i->size(); ++k) {
            o += in + (k ? "else if " : "if ") + i->at(k).second->__str__() + "\n";
            text_of(i->at(k).first, in + "  ", o);
        }
        return;
    }
    if (auto w = dynamic_cast<scf::While*>(&n)) {
        o += in + "while\n";
        text_of(w->root(), in + "  ", o);
        return;
    }
    if (auto l = dynamic_cast<scf::StructuredLoop*>(&n)) {
        o += in + (dynamic_cast<scf::Map*>(l) ? "map " : "for ") + l->indvar()->get_name() + " = " + l->init()->__str__() + "; " + l->condition()->__str__() +
             "; " + l->update()->__str__() + "\n";
        text_of(l->root(), in + "  ", o);
        return;
    }
    if (dynamic_cast<scf::Break*>(&n)) o += in + "break\n";
    if (dynamic_cast<scf::Continue*>(&n)) o += in + "continue\n";
    if (auto r = dynamic_cast<scf::Return*>(&n)) o += in + "return " + r->data() + "\n";
}
inline std::string text(StructuredSDFG& s) {
    std::string o;
    std::set<std::string> names;
    for (auto& n : s.containers()) names.insert(n);
    for (auto& n : names) o += n + (s.is_argument(n) ? "(arg)" : "") + ": " + s.type(n).print() + "; ";
    o += "\n";
    text_of(s.root(), "", o);
    return o;
}

struct Result {
    std::map<std::string, std::vector<uint8_t>> mem; // what the pointer arguments point to, after the run
    bool returned = false;
    std::optional<ip::Val> ret;
    uint64_t steps = 0;
    std::string problem; // not empty: the run has no defined result
    bool unsupported = false;
    uint64_t leaks = 0;
};
typedef std::map<std::string, ip::Machine::Arg> Args;

inline Result run(StructuredSDFG& s, const Args& args, bool strict, uint64_t garbage, vh::Rng* shuffle, bool indvar_dead, uint64_t limit = 20000,
                  const std::set<size_t>* enter = nullptr) {
    Result r;
    ip::Machine m(s);
    m.strict = strict;
    m.check_dims = strict;
    m.garbage = garbage;
    m.shuffle = shuffle;
    m.map_indvar_dead = indvar_dead;
    m.limit = limit;
    m.enter = enter;
    try {
        m.run(args);
    } catch (const ip::Undefined& e) {
        r.problem = e.what();
    } catch (const ip::Unsupported& e) {
        r.problem = e.what();
        r.unsupported = true;
    }
    for (auto& [n, b] : m.arg_buf) {
        r.mem[n] = b->b;
        // iterations of a map left different values there, and nothing overwrote them
        if (strict && r.problem.empty() && std::count(b->init.begin(), b->init.end(), 0)) r.problem = "no defined final value: " + b->name;
    }
    r.returned = m.returned;
    r.ret = m.ret;
    r.steps = m.steps;
    r.leaks = m.leaks();
    return r;
}

// floating-point memory is compared by value, so that NaNs agree
inline std::string differ(const Prog& p, const Result& a, const Result& b) {
    if (a.ret.has_value() != b.ret.has_value() || (a.ret && !ip::same(*a.ret, *b.ret)))
        return vh::fmt("returns %s, should return %s", b.ret ? ip::show(*b.ret).c_str() : "nothing", a.ret ? ip::show(*a.ret).c_str() : "nothing");
    for (auto& [n, x] : a.mem) {
        auto& y = b.mem.at(n);
        auto t = p.args.at(n).t;
        size_t w = ip::width(t);
        for (size_t i = 0; i + w <= x.size(); i += w) {
            if (!memcmp(&x[i], &y[i], w)) continue;
            if (types::is_floating_point(t)) {
                double u = 0, v = 0;
                if (w == 8)
                    memcpy(&u, &x[i], 8), memcpy(&v, &y[i], 8);
                else {
                    float f;
                    memcpy(&f, &x[i], 4), u = f, memcpy(&f, &y[i], 4), v = f;
                }
                if (u == v || (std::isnan(u) && std::isnan(v))) continue;
                return vh::fmt("%s[%zu] is %g, should be %g", n.c_str(), i / w, v, u);
            }
            int64_t u = 0, v = 0;
            memcpy(&u, &x[i], w), memcpy(&v, &y[i], w);
            return vh::fmt("%s[%zu] is %lld, should be %lld", n.c_str(), i / w, (long long) v, (long long) u);
        }
    }
    return "";
}

struct Case {
    Prog p;
    std::vector<Args> args;
    std::vector<Result> want;
};

inline std::string show_args(const Prog& p, const Args& a) {
    std::string s;
    for (auto& [n, x] : a)
        if (!x.pointer) s += n + "=" + ip::show(x.v) + " ";
    return s;
}

// containers whose value a part of the program assigns
inline void assigned(const structured_control_flow::ControlFlowNode& n, std::set<std::string>& out) {
    namespace scf = structured_control_flow;
    if (auto s = dynamic_cast<const scf::Sequence*>(&n)) {
        for (size_t i = 0; i < s->size(); ++i) {
            auto [child, tr] = s->at(i);
            for (auto& e : tr.assignments()) out.insert(e.first->get_name());
            assigned(child, out);
        }
    } else if (auto b = dynamic_cast<const scf::Block*>(&n)) {
        for (auto& m : b->dataflow().edges()) {
            auto* a = dynamic_cast<const data_flow::AccessNode*>(&m.dst());
            if (a && m.type() != data_flow::MemletType::Dereference_Dst) out.insert(a->data());
        }
    } else if (auto l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
        out.insert(l->indvar()->get_name());
        assigned(l->root(), out);
    } else if (auto w = dynamic_cast<const scf::While*>(&n))
        assigned(w->root(), out);
    else if (auto i = dynamic_cast<const scf::IfElse*>(&n))
        for (size_t k = 0; k < i->size(); ++k) assigned(i->at(k).first, out);
}
inline void collect_fors(const structured_control_flow::ControlFlowNode& n, std::set<size_t>& out) {
    namespace scf = structured_control_flow;
    if (auto s = dynamic_cast<const scf::Sequence*>(&n)) {
        for (size_t i = 0; i < s->size(); ++i) collect_fors(s->at(i).first, out);
    } else if (auto l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
        if (dynamic_cast<const scf::For*>(l)) out.insert(l->element_id());
        collect_fors(l->root(), out);
    } else if (auto w = dynamic_cast<const scf::While*>(&n))
        collect_fors(w->root(), out);
    else if (auto i = dynamic_cast<const scf::IfElse*>(&n))
        for (size_t k = 0; k < i->size(); ++k) collect_fors(i->at(k).first, out);
}
// docc defines the symbols of a loop's condition to be constant in the loop
inline bool keeps_bounds(const structured_control_flow::ControlFlowNode& n) {
    namespace scf = structured_control_flow;
    if (auto s = dynamic_cast<const scf::Sequence*>(&n)) {
        for (size_t i = 0; i < s->size(); ++i)
            if (!keeps_bounds(s->at(i).first)) return false;
    } else if (auto l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
        std::set<std::string> w;
        assigned(l->root(), w);
        for (auto& a : symbolic::atoms(l->condition()))
            if (w.count(a->get_name())) return false;
        return !w.count(l->indvar()->get_name()) && keeps_bounds(l->root());
    } else if (auto w = dynamic_cast<const scf::While*>(&n))
        return keeps_bounds(w->root());
    else if (auto i = dynamic_cast<const scf::IfElse*>(&n))
        for (size_t k = 0; k < i->size(); ++k)
            if (!keeps_bounds(i->at(k).first)) return false;
    return true;
}

// A program with at least one run that has a defined result, the same in every order of its maps.
inline std::optional<Case> make_case(vh::Ctx& ctx, vh::Rng& rng, const gn::Opts& o, uint64_t& seed, int tries = 12, size_t enough = 5) {
    for (int t = 0; t < tries; ++t) {
        seed = rng.next();
        Case c;
        c.p = gn::make(seed, o);
        try {
            c.p.sdfg->validate();
        } catch (const std::exception& e) {
            ctx.event("generated program rejected");
            if (getenv("VH_SHOW")) fprintf(stderr, "rejected: %s\n", e.what());
            continue;
        }
        if (!keeps_bounds(c.p.sdfg->root())) {
            ctx.event("programs that move loop bounds");
            continue;
        }
        vh::Rng ar(seed ^ 77);
        std::string why;
        for (int k = 0; k < 5 && c.args.size() < enough; ++k) {
            auto a = gn::arguments(ar, c.p);
            auto r = run(*c.p.sdfg, a, true, 11, nullptr, true);
            if (!r.problem.empty()) {
                why = r.problem;
                continue;
            }
            c.args.push_back(a);
            c.want.push_back(r);
        }
        if (c.args.empty()) {
            ctx.event("discarded programs");
            if (getenv("VH_SHOW")) fprintf(stderr, "discarded: %s\n", why.c_str());
            continue;
        }
        ctx.event("programs");
        ctx.event("reference runs", c.args.size());
        return c;
    }
    return std::nullopt;
}

// Runs the changed program on the arguments of the case. Empty when it behaves the same.
inline std::string check(vh::Ctx& ctx, const Case& c, StructuredSDFG& s, uint64_t seed, bool indvar_dead, const std::set<size_t>* enter = nullptr) {
    for (size_t k = 0; k < c.args.size(); ++k) {
        for (int mode = 0; mode < 2; ++mode) {
            vh::Rng sh(seed + 31 * k);
            auto r = run(s, c.args[k], false, 21 + mode, mode ? &sh : nullptr, indvar_dead, 200000, enter);
            ctx.event("runs compared");
            ctx.event("steps", r.steps);
            if (r.unsupported) {
                ctx.event("unsupported: " + r.problem);
                return "";
            }
            std::string d = r.problem.empty() ? differ(c.p, c.want[k], r) : r.problem;
            if (!d.empty()) return d + (mode ? " (maps in another order)" : "") + " for " + show_args(c.p, c.args[k]);
        }
    }
    return "";
}
} // namespace xf
