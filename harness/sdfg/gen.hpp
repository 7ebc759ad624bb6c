// Random structured programs, built through StructuredSDFGBuilder, and arguments to run them on.
//
// The programs are of the shape the front ends produce: loop nests over arrays, while loops with a continue/break
// at the end, branches on symbols, symbol assignments in transitions, tasklet chains, views of arrays, local and heap
// arrays. Inside one block two accesses of the same memory are always ordered by the data flow, and the assignments of
// one transition never read each other's left-hand side, so every program has one meaning.
#pragma once
#include "interp.hpp"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/structured_control_flow/map.h"
#include "sdfg/symbolic/symbolic.h"

namespace gn {
using namespace sdfg;
namespace df = sdfg::data_flow;
namespace scf = sdfg::structured_control_flow;
using df::TaskletCode;
using symbolic::Condition;
using symbolic::Expression;
using types::PrimitiveType;

struct Opts {
    int budget = 10; // statements
    int depth = 3;
    bool whiles = true, maps = true, ifs = true, views = true, heap = true, returns = true, ints = true, casts = true, two_d = true,
         early = true, // break, continue and return in the middle of loops
        after = true, // values of loop variables used after the loop
        bools = true, mul = true, libs = true, deref = false, indirect = true, bitops = true;
    bool strict_types = false; // what is assigned to a typed pointer has its type
    bool parallel_bias = false; // mostly loops that are parallel
    int threads = 0;
};

struct ArgSpec {
    PrimitiveType t;
    bool pointer;
};

struct Prog {
    std::unique_ptr<StructuredSDFG> sdfg;
    std::map<std::string, ArgSpec> args;
    std::string features;
};

struct Arr {
    std::string name;
    PrimitiveType t;
    int kind; // 0 pointer 1-D, 1 pointer to rows of 10, 2 local 1-D [8], 3 local of one element, 4 local 2-D [6][6]
    bool writable = true;
    std::string group; // what it may share memory with
};

struct Opnd {
    std::string c; // container, or the text of a constant
    df::Subset s;
    std::unique_ptr<types::IType> base;
    PrimitiveType t;
    bool constant = false;
    std::string group;
};

struct Gen {
    vh::Rng r;
    Opts o;
    builder::StructuredSDFGBuilder b;
    std::vector<std::string> iv; // active loop variables
    std::vector<std::string> old; // loop variables of finished loops
    std::vector<Arr> arrs;
    std::vector<std::string> live; // symbols that have a value
    std::set<std::string> protect; // symbols no statement may write
    std::map<std::string, ArgSpec> args;
    int budget, fresh = 0, in_loop = 0, in_map = 0;
    bool opaque;
    std::unique_ptr<types::IType> ret;

    static PrimitiveType rett(int k) { return k == 1 ? PrimitiveType::Double : k == 2 ? PrimitiveType::Int64 : PrimitiveType::Void; }
    Gen(uint64_t seed, const Opts& o_, int retk)
        : r(seed), o(o_), b("prog", FunctionType_CPU, *std::unique_ptr<types::IType>(new types::Scalar(rett(retk)))), budget(o.budget),
          opaque(r.chance(0.6)) {
        if (retk) ret = std::make_unique<types::Scalar>(rett(retk));
    }

    static types::Scalar sc(PrimitiveType t) { return types::Scalar(t); }
    bool has(const std::string& n) { return b.subject().exists(n); }
    void scalar(const std::string& n, PrimitiveType t, bool arg = false) {
        if (has(n)) return;
        b.add_container(n, sc(t), arg);
        if (arg) args[n] = {t, false};
    }
    void pointer_arg(const std::string& n, PrimitiveType t, int kind) {
        if (has(n)) return;
        if (opaque)
            b.add_container(n, types::Pointer(), true);
        else
            b.add_container(n, *pbase(t, kind), true);
        args[n] = {t, true};
        arrs.push_back({n, t, kind, true, n});
    }
    std::unique_ptr<types::IType> pbase(PrimitiveType t, int kind) {
        // as many columns as rows fit the buffers: see the known finding array-extent of L04
        if (kind == 1) return std::make_unique<types::Pointer>(types::Array(sc(t), symbolic::integer(10)));
        return std::make_unique<types::Pointer>(sc(t));
    }
    std::unique_ptr<types::IType> base_of(const Arr& a) {
        if (a.kind <= 1) return pbase(a.t, a.kind);
        return b.subject().type(a.name).clone();
    }

    // Symbolic expressions
    static Expression S(const std::string& n) { return symbolic::symbol(n); }
    static Expression I(int64_t c) { return symbolic::integer(c); }
    std::string any_sym(const std::set<std::string>& no = {}) {
        for (int t = 0; t < 20; ++t) {
            std::string n;
            double x = r.unit();
            if (!iv.empty() && x < 0.6)
                n = r.pick(iv);
            else if (x < 0.75 || live.empty())
                n = r.pick({"N", "M", "P"});
            else if (o.after && !old.empty() && x < 0.79)
                n = r.pick(old);
            else
                n = r.pick(live);
            if (!no.count(n)) return n;
        }
        return "N";
    }
    Expression expr(const std::set<std::string>& no = {}, int d = 2) {
        auto x = r.below(d > 0 ? 16 : 6);
        if (x <= 2) return S(any_sym(no));
        if (x <= 4) return symbolic::add(S(any_sym(no)), I(r.range(-2, 3)));
        if (x == 5) return I(r.range(-1, 6));
        if (x <= 7) return symbolic::add(expr(no, d - 1), expr(no, d - 1));
        if (x == 8) return symbolic::sub(expr(no, d - 1), expr(no, d - 1));
        if (x == 9 && o.mul) return symbolic::mul(I(r.range(-1, 4)), expr(no, d - 1));
        if (x == 10) return symbolic::min(expr(no, d - 1), expr(no, d - 1));
        if (x == 11) return symbolic::max(expr(no, d - 1), expr(no, d - 1));
        if (x == 12) return symbolic::mod(symbolic::max(expr(no, d - 1), I(0)), I(r.range(2, 4)));
        if (x == 13) return symbolic::div(symbolic::max(expr(no, d - 1), I(0)), I(r.range(2, 4)));
        if (x == 14 && o.mul) return symbolic::mul(S(any_sym(no)), S(any_sym(no)));
        return S(any_sym(no));
    }
    // subscripts that mostly stay inside
    Expression index(const std::set<std::string>& no = {}) {
        if (!iv.empty() && r.chance(0.8)) {
            auto i = iv[r.chance(0.6) ? iv.size() - 1 : r.below(iv.size())];
            switch (r.below(12)) {
                case 0: return symbolic::add(S(i), I(1));
                case 1: return symbolic::add(S(i), I(r.range(-2, 3)));
                case 2: return symbolic::mul(I(2), S(i));
                case 3: return symbolic::add(symbolic::mul(I(8), S(i)), S(r.pick(iv)));
                case 4: // a row of M has M columns: see the known finding symbolic-row of S05
                    return symbolic::add(symbolic::mul(S(r.pick(iv)), below_m.count(i) ? S("M") : I(7)), S(i));
                case 5: return symbolic::add(S(i), S(r.pick(iv)));
                case 6: return symbolic::sub(symbolic::sub(S("N"), I(1)), S(i));
                case 7: return expr(no, 1);
                default: return S(i);
            }
        }
        return r.chance(0.6) ? I(r.range(0, 5)) : expr(no, 1);
    }
    Condition cond(const std::set<std::string>& no = {}, int d = 1) {
        auto a = expr(no, 1), c = r.chance(0.6) ? I(r.range(0, 4)) : expr(no, 0);
        auto x = r.below(d ? 9 : 6);
        switch (x) {
            case 0: return symbolic::Lt(a, c);
            case 1: return symbolic::Le(a, c);
            case 2: return symbolic::Gt(a, c);
            case 3: return symbolic::Ge(a, c);
            case 4: return symbolic::Eq(a, c);
            case 5: return symbolic::Ne(a, c);
            case 6: return symbolic::And(cond(no, 0), cond(no, 0));
            case 7: return symbolic::Or(cond(no, 0), cond(no, 0));
            default: return symbolic::Lt(S(any_sym(no)), S(any_sym(no)));
        }
    }

    // Blocks
    struct Ctx {
        std::set<std::string> written, read, syms; // groups of what the block wrote and read, symbols its subsets use
    };
    void note(Ctx& c, const df::Subset& s) {
        for (auto& d : s)
            for (auto& a : symbolic::atoms(d)) c.syms.insert(SymEngine::rcp_static_cast<const SymEngine::Symbol>(a)->get_name());
    }
    std::string scalar_name(PrimitiveType t, bool write) {
        switch (t) {
            case PrimitiveType::Double: return !write && r.chance(0.15) ? r.pick({"alpha", "beta"}) : r.pick({"x0", "x1", "x2", "x3"});
            case PrimitiveType::Int64: {
                if (!write && r.chance(0.3)) return any_sym();
                return r.pick({"s0", "s1", "s2", "s3"});
            }
            case PrimitiveType::Int32: return r.pick({"n0", "n1"});
            case PrimitiveType::Float: return "f0";
            case PrimitiveType::Bool: return "b0";
            case PrimitiveType::UInt32: return "u0";
            case PrimitiveType::Int8: return "c0";
            default: return "x0";
        }
    }
    std::optional<Opnd> operand(PrimitiveType t, bool write, Ctx& c) {
        for (int tries = 0; tries < 12; ++tries) {
            Opnd p;
            p.t = t;
            if (!write && r.chance(0.12)) {
                p.constant = true;
                p.c = types::is_floating_point(t) ? r.pick({"2.0", "0.5", "1.0", "3.0"}) : r.pick({"0", "1", "2", "3"});
                if (t == PrimitiveType::Bool) p.c = r.pick({"true", "false"});
                p.base = std::make_unique<types::Scalar>(t);
                return p;
            }
            std::vector<Arr*> as;
            for (auto& a : arrs)
                if (a.t == t && (!write || a.writable)) as.push_back(&a);
            if (!as.empty() && r.chance(0.6)) {
                auto& a = *r.pick(as);
                if (c.written.count(a.group) || (write && in_map && private_.count(a.name) == 0)) continue;
                p.c = a.name;
                p.group = a.group;
                p.base = base_of(a);
                if (a.kind == 3)
                    p.s = {I(0)};
                else if (a.kind == 1 || a.kind == 4)
                    p.s = {index(c.written), index(c.written)};
                else
                    p.s = {index(c.written)};
            } else {
                p.c = p.group = scalar_name(t, write);
                if (write && (protect.count(p.c) || args.count(p.c))) continue;
                if (write && in_map && !private_.count(p.c)) continue;
                if (!write && !has(p.c) && !args.count(p.c)) continue;
                if (c.written.count(p.group)) continue;
                scalar(p.c, t);
                p.t = static_cast<const types::Scalar&>(b.subject().type(p.c)).primitive_type();
                if (p.t != t) continue;
                p.base = std::make_unique<types::Scalar>(t);
            }
            bool bad = false;
            for (auto& d : p.s)
                for (auto& a : symbolic::atoms(d)) bad |= c.written.count(SymEngine::rcp_static_cast<const SymEngine::Symbol>(a)->get_name()) > 0;
            if (bad) continue;
            if (write && c.syms.count(p.c)) continue;
            return p;
        }
        return std::nullopt;
    }
    df::AccessNode& node(scf::Block& bl, const Opnd& p) {
        if (p.constant) return b.add_constant(bl, p.c, sc(p.t));
        return b.add_access(bl, p.c);
    }
    struct Op {
        TaskletCode c;
        PrimitiveType in, out;
    };
    Op pick_op(std::optional<PrimitiveType> last) {
        using P = PrimitiveType;
        for (;;) {
            Op x{};
            auto k = r.below(20);
            if (k < 9)
                x = {r.pick({TaskletCode::fp_add, TaskletCode::fp_sub, TaskletCode::fp_mul, TaskletCode::fp_add, TaskletCode::fp_fma,
                             TaskletCode::fp_neg, TaskletCode::fp_div}),
                     P::Double, P::Double};
            else if (k < 12)
                x = {TaskletCode::assign, P::Double, P::Double};
            else if (k < 15 && o.ints)
                x = {r.pick({TaskletCode::int_add, TaskletCode::int_sub, TaskletCode::int_mul, TaskletCode::int_smin, TaskletCode::int_smax,
                             TaskletCode::int_add, o.bitops ? TaskletCode::int_and : TaskletCode::int_add,
                             o.bitops ? TaskletCode::int_or : TaskletCode::int_sub, TaskletCode::assign, TaskletCode::assign}),
                     r.pick({P::Int64, P::Int64, P::Int64, P::Int32}), P::Void};
            else if (k < 17 && o.casts) {
                x = {TaskletCode::assign, r.pick({P::Double, P::Int64, P::Int32, P::Float, P::Int64}),
                     r.pick({P::Double, P::Int64, P::Int32, P::Float, P::Int64})};
                if (types::is_floating_point(x.in) && !types::is_floating_point(x.out)) continue;
            } else if (k == 17 && o.bools)
                x = {r.pick({TaskletCode::fp_olt, TaskletCode::fp_oge, TaskletCode::fp_oeq}), P::Double, P::Bool};
            else if (k == 18 && o.bools && o.ints)
                x = {r.pick({TaskletCode::int_slt, TaskletCode::int_eq, TaskletCode::int_sge}), P::Int64, P::Bool};
            else
                continue;
            if (x.out == P::Void) x.out = x.in;
            if (last && x.in != *last) {
                if (r.chance(0.97)) continue;
                return x;
            }
            return x;
        }
    }
    std::set<std::string> private_; // inside maps: what a statement may write
    // a chain of tasklets
    bool chain(scf::Block& bl, Ctx& c, int n) {
        df::AccessNode* last = nullptr;
        Opnd lp;
        bool any = false;
        for (int t = 0; t < n; ++t) {
            std::optional<PrimitiveType> lt;
            if (last) lt = lp.t;
            Op op = pick_op(lt);
            if (last && op.in != lp.t) break;
            size_t ar = df::arity(op.c);
            std::vector<Opnd> ins(ar);
            std::vector<df::AccessNode*> nodes(ar, nullptr);
            std::vector<std::string> conns;
            bool ok = true;
            size_t via = last ? r.below(ar) : ar;
            for (size_t k = 0; k < ar && ok; ++k) {
                conns.push_back("_in" + std::to_string(k));
                if (k == via || (last && r.chance(0.1))) {
                    nodes[k] = last;
                    ins[k] = Opnd{lp.c, lp.s, lp.base->clone(), lp.t, false, lp.group};
                    continue;
                }
                auto p = operand(op.in, false, c);
                if (!p) {
                    ok = false;
                    break;
                }
                ins[k] = std::move(*p);
            }
            if (!ok) break;
            Ctx saved = c;
            for (auto& p : ins)
                if (!p.constant) note(c, p.s);
            std::optional<Opnd> out;
            // often update in place
            if (ar > 1 && !ins[0].constant && ins[0].t == op.out && nodes[0] == nullptr && r.chance(0.3) && writable(ins[0])) {
                out = Opnd{ins[0].c, {}, ins[0].base->clone(), ins[0].t, false, ins[0].group};
                out->s = ins[0].s;
                if (c.syms.count(out->c)) out.reset();
            }
            if (!out) out = operand(op.out, true, c);
            if (!out) {
                c = saved;
                break;
            }
            std::map<std::string, df::AccessNode*> shared;
            for (size_t k = 0; k < ar; ++k)
                if (!nodes[k]) {
                    if (!ins[k].constant && shared.count(ins[k].c) && r.chance(0.5))
                        nodes[k] = shared[ins[k].c];
                    else {
                        nodes[k] = &node(bl, ins[k]);
                        if (!ins[k].constant) shared[ins[k].c] = nodes[k];
                    }
                }
            auto& tk = b.add_tasklet(bl, op.c, "_out", conns);
            for (size_t k = 0; k < ar; ++k) b.add_computational_memlet(bl, *nodes[k], tk, conns[k], ins[k].s, *ins[k].base);
            auto& on = b.add_access(bl, out->c);
            b.add_computational_memlet(bl, tk, "_out", on, out->s, *out->base);
            note(c, out->s);
            for (auto& p : ins)
                if (!p.constant) c.read.insert(p.group);
            c.written.insert(out->group);
            last = &on;
            lp = std::move(*out);
            if (lp.t == PrimitiveType::Int64 && lp.s.empty() && std::find(live.begin(), live.end(), lp.c) == live.end()) pending.push_back(lp.c);
            any = true;
        }
        for (auto& p : pending)
            if (!in_if) live.push_back(p);
        pending.clear();
        return any;
    }
    std::vector<std::string> pending;
    int in_if = 0;
    bool writable(const Opnd& p) {
        if (protect.count(p.c) || (args.count(p.c) && !args.at(p.c).pointer)) return false;
        if (in_map && !private_.count(p.c)) return false;
        if (p.s.empty() && std::find(iv.begin(), iv.end(), p.c) != iv.end()) return false;
        for (auto& a : arrs)
            if (a.name == p.c) return a.writable;
        return p.c[0] != 'i' && p.c != "N" && p.c != "M" && p.c != "P";
    }
    scf::Block& block(scf::Sequence& s, const control_flow::Assignments& a = {}) {
        auto& bl = b.add_block(s, a);
        Ctx c;
        for (auto& e : a) {
            (void) e;
        }
        chain(bl, c, (int) r.range(1, 4));
        if (r.chance(0.2)) {
            // an independent second chain
            Ctx d;
            d.written = c.written;
            for (auto& x : c.read) d.written.insert(x);
            for (auto& x : c.syms) d.syms.insert(x);
            // symbols read by the first chain must not be written, symbols it wrote must not be read
            chain(bl, d, (int) r.range(1, 2));
        }
        return bl;
    }
    control_flow::Assignments assigns() {
        control_flow::Assignments a;
        int n = r.chance(0.8) ? 1 : 2;
        std::set<std::string> lhs;
        for (int t = 0; t < n; ++t) {
            auto s = r.pick({"s0", "s1", "s2", "s3"});
            if (!protect.count(s) && !(in_map && !private_.count(s))) lhs.insert(s);
        }
        for (auto& l : lhs) {
            std::set<std::string> no = lhs;
            Expression e;
            bool lv = std::find(live.begin(), live.end(), l) != live.end();
            if (lv && r.chance(0.35))
                e = symbolic::add(S(l), I(r.pick({1, 1, -1, 2})));
            else
                e = expr(no, 1);
            a[symbolic::symbol(l)] = e;
        }
        for (auto& l : lhs) scalar(l, PrimitiveType::Int64);
        return a;
    }
    void made_live(const control_flow::Assignments& a) {
        if (in_if) return;
        for (auto& e : a)
            if (std::find(live.begin(), live.end(), e.first->get_name()) == live.end()) live.push_back(e.first->get_name());
    }

    std::string indvar(PrimitiveType* t = nullptr) {
        std::string n;
        do {
            n = r.chance(0.6) ? r.pick({"i", "j", "k", "l"}) : "i" + std::to_string(fresh++);
        } while (std::find(iv.begin(), iv.end(), n) != iv.end());
        if (!has(n)) {
            scalar(n, r.chance(0.15) ? PrimitiveType::Int32 : PrimitiveType::Int64);
        }
        (void) t;
        old.erase(std::remove(old.begin(), old.end(), n), old.end());
        return n;
    }
    Expression bound() {
        switch (r.below(8)) {
            case 0: return I(r.range(1, 6));
            case 1: return symbolic::sub(S("N"), I(1));
            case 2: return symbolic::add(S("M"), I(r.chance(0.5) ? 2 : -1));
            case 3: return S("M");
            case 4:
                if (!iv.empty()) return symbolic::add(S(r.pick(iv)), I(r.chance(0.5) ? 0 : 2));
                return S("N");
            case 5:
                if (!live.empty() && r.chance(0.4)) return S(r.pick(live));
                return S("N");
            default: return S("N");
        }
    }
    struct LoopHead {
        symbolic::Symbol v;
        Expression init, update;
        Condition cond;
    };
    std::set<std::string> below_m;
    LoopHead head(const std::string& n) {
        auto h = head_(n);
        below_m.erase(n);
        if (symbolic::eq(h.cond, symbolic::Lt(h.v, S("M"))) || symbolic::eq(h.cond, symbolic::Le(h.v, symbolic::sub(S("M"), I(1))))) below_m.insert(n);
        return h;
    }
    LoopHead head_(const std::string& n) {
        LoopHead h;
        h.v = symbolic::symbol(n);
        int64_t st = r.chance(0.75) ? 1 : r.range(2, 3);
        auto bd = bound();
        Expression lo = I(0);
        switch (r.below(8)) {
            case 0: lo = I(1); break;
            case 1: lo = I(2); break;
            case 2:
                if (!iv.empty()) lo = S(r.pick(iv));
                break;
            case 3:
                if (!iv.empty()) lo = symbolic::add(S(r.pick(iv)), I(1));
                break;
            case 4:
                if (r.chance(0.4)) {
                    if (!live.empty() && r.chance(0.5)) lo = S(r.pick(live)); // may be assigned in the body
                    else if (std::find(old.begin(), old.end(), n) != old.end() && r.chance(0.5)) lo = S(n); // goes on from an earlier loop
                    else if (!old.empty()) lo = S(r.pick(old));
                }
                break;
            default: break;
        }
        if (r.chance(0.12)) { // downwards
            h.init = symbolic::sub(bd, I(1));
            h.cond = r.chance(0.5) ? symbolic::Ge(h.v, lo) : symbolic::Gt(h.v, symbolic::sub(lo, I(1)));
            if (st == 1 && r.chance(0.15)) h.cond = symbolic::Ne(h.v, symbolic::sub(lo, I(1)));
            h.update = symbolic::sub(h.v, I(st));
            return h;
        }
        h.init = lo;
        h.update = symbolic::add(h.v, I(st));
        switch (r.below(r.chance(0.25) ? 14 : 8)) {
            case 8: h.cond = symbolic::And(symbolic::Ne(h.v, bound()), symbolic::Lt(h.v, bd)); break;
            case 9: h.cond = symbolic::Or(symbolic::Lt(h.v, bd), symbolic::Lt(h.v, bound())); break;
            case 10: h.cond = symbolic::Lt(symbolic::mul(I(2), h.v), bd); break;
            case 11: h.cond = symbolic::And(symbolic::Ne(symbolic::mul(I(2), h.v), bound()), symbolic::Lt(h.v, bd)); break;
            case 12: h.cond = symbolic::Lt(h.v, symbolic::max(lo, bd)); break;
            case 13: h.cond = symbolic::Lt(symbolic::add(h.v, I(r.range(-2, 2))), bd); break;
            case 0: h.cond = symbolic::Le(h.v, symbolic::sub(bd, I(1))); break; // not just i <= N: see the known finding le-bound of L04
            case 1: h.cond = symbolic::And(symbolic::Lt(h.v, bd), symbolic::Lt(h.v, bound())); break;
            case 2:
                if (st == 1 && r.chance(0.5)) {
                    h.cond = symbolic::Ne(h.v, bd); // may not end: such runs are discarded
                    break;
                }
                [[fallthrough]];
            default: h.cond = symbolic::Lt(h.v, bd);
        }
        return h;
    }

    // a body every iteration of which only touches its own elements: B[.., i, ..] = f(other arrays, B[.., i, ..])
    void parallel_body(scf::Sequence& s, const std::string& i) {
        std::vector<Arr*> as;
        for (auto& a : arrs)
            if (a.writable && a.kind <= 1 && a.t == PrimitiveType::Double) as.push_back(&a);
        if (as.empty()) return;
        auto& w = *r.pick(as);
        if (par_written.count(w.group)) return;
        df::Subset sub;
        std::vector<std::string> dims = map_ivs;
        if (dims.empty()) dims.push_back(i);
        auto off = I(r.chance(0.7) ? 0 : r.range(1, 3));
        if (dims.size() == 1)
            sub = w.kind == 1 ? df::Subset{symbolic::add(S(i), off), I(r.range(0, 5))} : df::Subset{symbolic::add(S(i), off)};
        else if (w.kind == 1)
            sub = {S(dims[0]), symbolic::add(S(dims[1]), off)};
        else
            sub = {symbolic::add(symbolic::mul(I(8), S(dims[0])), S(dims[1]))};
        if (dims.size() == 2 && r.chance(0.2) && w.kind == 1) std::swap(sub[0], sub[1]);
        if (dims.size() > 2) return;
        par_written.insert(w.group);
        auto wb = base_of(w);
        auto& bl = b.add_block(s);
        auto& tk = b.add_tasklet(bl, r.chance(0.5) ? TaskletCode::fp_add : TaskletCode::fp_mul, "_out", {"_in0", "_in1"});
        for (int k = 0; k < 2; ++k) {
            Ctx c;
            c.written = par_written;
            std::optional<Opnd> p;
            if (r.chance(0.25)) {
                Opnd q;
                q.c = w.name, q.s = sub, q.base = wb->clone(), q.t = w.t;
                p = std::move(q);
            } else
                p = operand(PrimitiveType::Double, false, c);
            if (!p) {
                Opnd q;
                q.constant = true, q.c = "2.0", q.t = PrimitiveType::Double, q.base = std::make_unique<types::Scalar>(PrimitiveType::Double);
                p = std::move(q);
            }
            if (!p->constant) par_read.insert(p->group.empty() ? p->c : p->group);
            auto& nd = node(bl, *p);
            b.add_computational_memlet(bl, nd, tk, "_in" + std::to_string(k), p->s, *p->base);
        }
        std::string tmp = "x" + std::to_string(r.below(4));
        if (r.chance(0.3)) {
            // through a private scalar
            scalar(tmp, PrimitiveType::Double);
            auto& t = b.add_access(bl, tmp);
            b.add_computational_memlet(bl, tk, "_out", t, {}, sc(PrimitiveType::Double));
            if (r.chance(0.5)) {
                auto& as2 = b.add_tasklet(bl, TaskletCode::fp_neg, "_out", {"_in"});
                b.add_computational_memlet(bl, t, as2, "_in", {}, sc(PrimitiveType::Double));
                auto& on = b.add_access(bl, w.name);
                b.add_computational_memlet(bl, as2, "_out", on, sub, *wb);
            } else {
                auto& b2 = b.add_block(s);
                auto& as2 = b.add_tasklet(b2, TaskletCode::assign, "_out", {"_in"});
                auto& t2 = b.add_access(b2, tmp);
                b.add_computational_memlet(b2, t2, as2, "_in", {}, sc(PrimitiveType::Double));
                auto& on = b.add_access(b2, w.name);
                b.add_computational_memlet(b2, as2, "_out", on, sub, *wb);
            }
        } else {
            auto& on = b.add_access(bl, w.name);
            b.add_computational_memlet(bl, tk, "_out", on, sub, *wb);
        }
    }
    std::set<std::string> par_written, par_read;
    std::vector<std::string> map_ivs;
    void parallel_nest(scf::Sequence& s, int d, bool map) {
        auto n = indvar();
        auto h = head(n);
        --budget;
        iv.push_back(n);
        bool fresh_protect = protect.insert(n).second;
        map_ivs.push_back(n);
        scf::Sequence* root;
        if (map)
            root = &b.add_map(s, h.v, h.cond, h.init, h.update, scf::ScheduleType_Sequential::create()).root();
        else
            root = &b.add_for(s, h.v, h.cond, h.init, h.update).root();
        ++in_loop;
        if (d > 0 && map_ivs.size() < 2 && r.chance(0.5))
            parallel_nest(*root, d - 1, map || r.chance(0.2));
        else {
            int k = (int) r.range(1, 2);
            for (int t = 0; t < k; ++t) parallel_body(*root, n);
        }
        --in_loop;
        map_ivs.pop_back();
        iv.pop_back();
        if (fresh_protect) protect.erase(n);
        if (map_ivs.empty()) par_written.clear(), par_read.clear();
        old.push_back(n);
    }

    // a map that computes what the next loop reads
    void pair(scf::Sequence& s) {
        std::vector<Arr> as;
        for (auto& a : arrs)
            if (a.writable && (a.kind == 0 || a.kind == 2) && a.t == PrimitiveType::Double) as.push_back(a);
        for (auto* nm : {"pa", "pb"}) // nothing but the map fills these
            if (r.chance(0.3)) {
                if (!has(nm)) b.add_container(nm, types::Array(sc(PrimitiveType::Double), I(12)));
                as.push_back({nm, PrimitiveType::Double, 2, true, nm});
            }
        if (as.empty()) return;
        auto C = r.pick(as), D = r.pick(as);
        auto lin = [&](const std::string& v, int64_t mul, int64_t off) {
            Expression e = S(v);
            if (mul != 1) e = symbolic::mul(I(mul), e);
            return off ? symbolic::add(e, I(off)) : e;
        };
        int64_t m1 = r.chance(0.75) ? 1 : r.pick({2, -1, 2}), o1 = r.chance(0.7) ? 0 : r.range(-1, 2);
        if (m1 == -1) o1 = 6;
        auto n1 = indvar();
        auto h1 = head(n1);
        std::string n2 = r.chance(0.4) ? n1 : indvar();
        auto in = [&](scf::Sequence& root, const std::string& v, auto body) {
            iv.push_back(v);
            bool fp = protect.insert(v).second;
            ++in_loop, ++in_if;
            body(root);
            --in_loop, --in_if;
            iv.pop_back();
            if (fp) protect.erase(v);
            old.push_back(v);
        };
        auto stmt1 = [&](scf::Sequence& root, const Arr& w, const df::Subset& ws, std::vector<std::pair<Arr, df::Subset>> reads) {
            auto& bl = b.add_block(root);
            auto& tk = b.add_tasklet(bl, r.pick({TaskletCode::fp_add, TaskletCode::fp_mul, TaskletCode::fp_sub}), "_out", {"_in0", "_in1"});
            df::AccessNode* shared = nullptr;
            for (int k = 0; k < 2; ++k) {
                if (k < (int) reads.size()) {
                    auto& n = shared && r.chance(0.4) && reads[0].first.name == reads[1].first.name ? *shared : b.add_access(bl, reads[k].first.name);
                    shared = &n;
                    b.add_computational_memlet(bl, n, tk, "_in" + std::to_string(k), reads[k].second, *base_of(reads[k].first));
                    continue;
                }
                Ctx c;
                auto p = operand(PrimitiveType::Double, false, c);
                if (!p) {
                    Opnd q;
                    q.constant = true, q.c = "2.0", q.t = PrimitiveType::Double, q.base = std::make_unique<types::Scalar>(PrimitiveType::Double);
                    p = std::move(q);
                }
                b.add_computational_memlet(bl, node(bl, *p), tk, "_in" + std::to_string(k), p->s, *p->base);
            }
            if (r.chance(0.25)) {
                std::string tmp = "x" + std::to_string(r.below(4));
                scalar(tmp, PrimitiveType::Double);
                auto& t = b.add_access(bl, tmp);
                b.add_computational_memlet(bl, tk, "_out", t, {}, sc(PrimitiveType::Double));
                auto& as2 = b.add_tasklet(bl, TaskletCode::fp_neg, "_out", {"_in"});
                b.add_computational_memlet(bl, t, as2, "_in", {}, sc(PrimitiveType::Double));
                b.add_computational_memlet(bl, as2, "_out", b.add_access(bl, w.name), ws, *base_of(w));
            } else
                b.add_computational_memlet(bl, tk, "_out", b.add_access(bl, w.name), ws, *base_of(w));
        };
        auto& first = b.add_map(s, h1.v, h1.cond, h1.init, h1.update, scf::ScheduleType_Sequential::create());
        in(first.root(), n1, [&](scf::Sequence& root) { stmt1(root, C, {lin(n1, m1, o1)}, {}); });
        LoopHead h2 = h1;
        if (n1 != n2) {
            h2.v = symbolic::symbol(n2);
            h2.cond = symbolic::subs(h1.cond, h1.v, h2.v);
            h2.update = symbolic::subs(h1.update, h1.v, h2.v);
        }
        if (r.chance(0.25)) {
            h2 = head(n2);
        } else if (r.chance(0.3)) {
            auto x = r.below(3);
            if (x == 0) h2.init = symbolic::add(h2.init, I(r.range(-1, 2)));
            if (x == 1) h2.cond = symbolic::subs(h2.cond, S("N"), symbolic::add(S("N"), I(r.range(-2, -1)))); // not + 1: see the known finding le-bound of L04
            if (x == 2) h2.update = symbolic::add(h2.v, I(r.range(1, 3)));
        }
        bool map2 = r.chance(0.6);
        scf::Sequence& root2 = map2 ? b.add_map(s, h2.v, h2.cond, h2.init, h2.update, scf::ScheduleType_Sequential::create()).root()
                                    : b.add_for(s, h2.v, h2.cond, h2.init, h2.update).root();
        in(root2, n2, [&](scf::Sequence& root) {
            int k = (int) r.range(1, 2);
            for (int t = 0; t < k; ++t) {
                std::vector<std::pair<Arr, df::Subset>> rd;
                auto one = [&] {
                    return df::Subset{r.chance(0.6) ? lin(n2, m1, o1) : lin(n2, r.chance(0.7) ? m1 : r.range(1, 4), o1 + r.range(-2, 2))};
                };
                rd.push_back({C, one()});
                if (r.chance(0.35)) rd.push_back({C, one()});
                stmt1(root, D, {lin(n2, 1, r.chance(0.6) ? 0 : r.range(0, 2))}, rd);
                if (r.chance(0.3)) D = r.pick(as);
            }
        });
    }

    void loop(scf::Sequence& s, int d) {
        auto n = indvar();
        auto h = head(n);
        auto& f = b.add_for(s, h.v, h.cond, h.init, h.update, maybe_assigns());
        iv.push_back(n);
        bool fp = protect.insert(n).second;
        ++in_loop, ++in_if;
        auto sa = arrs;
        seq(f.root(), d - 1, (int) r.range(1, 3));
        arrs = sa;
        --in_loop, --in_if;
        iv.pop_back();
        if (fp) protect.erase(n);
        old.push_back(n);
    }
    control_flow::Assignments maybe_assigns() {
        if (in_map || !r.chance(0.12)) return {};
        auto a = assigns();
        made_live(a);
        return a;
    }
    void while_(scf::Sequence& s, int d) {
        std::string n = "w" + std::to_string(r.below(3));
        if (protect.count(n)) return;
        scalar(n, r.chance(0.1) ? PrimitiveType::Int32 : PrimitiveType::Int64);
        auto v = symbolic::symbol(n);
        b.add_block(s, {{v, r.chance(0.7) ? I(0) : I(r.range(1, 2))}});
        auto& w = b.add_while(s);
        protect.insert(n);
        iv.push_back(n);
        ++in_loop, ++in_if;
        auto sa = arrs;
        auto bd = bound();
        auto go = symbolic::Lt(v, bd);
        if (r.chance(0.15)) go = symbolic::And(go, symbolic::Lt(v, I(4)));
        auto up = symbolic::add(v, I(r.chance(0.8) ? 1 : 2));
        int form = (int) r.below(4);
        if (form == 0) { // test at the top
            auto& ie = b.add_if_else(w.root());
            b.add_break(b.add_case(ie, symbolic::Not(go)));
            if (r.chance(0.5)) b.add_block(b.add_case(ie, go));
            seq(w.root(), d - 1, (int) r.range(1, 3));
            b.add_block(w.root(), {{v, up}});
        } else { // test at the bottom
            seq(w.root(), d - 1, (int) r.range(1, 2));
            if (!live.empty() && r.chance(0.15)) up = symbolic::add(v, symbolic::max(S(r.pick(live)), I(1))); // a step that may change
            control_flow::Assignments as{{v, up}};
            if (r.chance(0.1)) {
                auto c = cond();
                auto& ie = b.add_if_else(w.root());
                b.add_block(b.add_case(ie, c), as); // not in every iteration
                if (r.chance(0.5)) b.add_block(b.add_case(ie, symbolic::Not(c)));
            } else
                b.add_block(w.root(), as);
            if (r.chance(0.3)) seq(w.root(), d - 1, 1);
            auto& ie = b.add_if_else(w.root());
            bool first = r.chance(0.5);
            auto& c1 = b.add_case(ie, first ? go : symbolic::Not(go));
            auto& c2 = b.add_case(ie, first ? symbolic::Not(go) : go);
            b.add_continue(first ? c1 : c2);
            b.add_break(first ? c2 : c1);
        }
        arrs = sa;
        --in_loop, --in_if;
        iv.pop_back();
        protect.erase(n);
        old.push_back(n);
    }
    void if_(scf::Sequence& s, int d) {
        auto c = cond();
        if (o.bools && has("b0") && r.chance(0.2)) c = symbolic::Eq(symbolic::symbol("b0"), r.chance(0.7) ? symbolic::__true__() : symbolic::__false__());
        auto& ie = b.add_if_else(s, maybe_assigns());
        ++in_if;
        auto sa = arrs;
        auto sl = live;
        auto& c1 = b.add_case(ie, c);
        seq(c1, d - 1, (int) r.range(1, 2));
        arrs = sa;
        if (r.chance(0.5)) {
            auto& c2 = b.add_case(ie, symbolic::Not(c));
            seq(c2, d - 1, (int) r.range(1, 2));
            arrs = sa;
        }
        live = sl;
        --in_if;
    }
    void view(scf::Sequence& s) {
        std::vector<Arr*> as;
        for (auto& a : arrs)
            if (a.kind != 3 && a.kind != 4) as.push_back(&a);
        if (as.empty()) return;
        Arr a = *r.pick(as);
        std::string n = r.pick({"v0", "v1", "v2"});
        if (n == a.name && r.chance(0.7)) return;
        if (!has(n)) {
            if (opaque)
                b.add_container(n, types::Pointer());
            else
                b.add_container(n, types::Pointer(sc(PrimitiveType::Double)));
        }
        if (a.t != PrimitiveType::Double && !opaque) return;
        auto& bl = b.add_block(s, maybe_assigns());
        df::Subset sub;
        auto off = r.chance(0.5) ? I(r.range(0, 3)) : index();
        if (a.kind == 1) {
            sub = {off};
            if (r.chance(0.5)) sub.push_back(I(r.range(0, 2)));
        } else
            sub = {off};
        int kind = a.kind == 1 && sub.size() == 1 && r.chance(0.4) ? 1 : 0;
        if (o.strict_types && !opaque && a.kind == 1 && sub.size() == 1) sub.push_back(I(0)), kind = 0; // a pointer to an element, not to a row
        auto& src = b.add_access(bl, a.name);
        auto& dst = b.add_access(bl, n);
        b.add_reference_memlet(bl, src, dst, sub, *base_of(a));
        std::string g = a.group;
        for (size_t k = 0; k < arrs.size(); ++k)
            if (arrs[k].name == n) {
                arrs.erase(arrs.begin() + k);
                --k;
            }
        // a view in a loop may still point to what it pointed to before: everything it was ever made of is one group
        if (view_group.count(n) && view_group[n] != g) {
            auto from = view_group[n];
            for (auto& x : arrs)
                if (x.group == from) x.group = g;
            for (auto& x : view_group)
                if (x.second == from) x.second = g;
        }
        view_group[n] = g;
        arrs.push_back({n, a.t, kind, a.writable, g});
    }
    std::map<std::string, std::string> view_group;
    void heap(scf::Sequence& s);
    void local_array(scf::Sequence& s) {
        int k = (int) r.below(3);
        std::string n = (k == 0 ? "la" : k == 1 ? "lb" : "lc") + std::to_string(r.below(2));
        for (auto& a : arrs)
            if (a.name == n) return;
        if (!has(n)) {
            if (k == 0)
                b.add_container(n, types::Array(sc(PrimitiveType::Double), I(8)));
            else if (k == 1)
                b.add_container(n, types::Array(sc(PrimitiveType::Double), I(1)));
            else
                b.add_container(n, types::Array(types::Array(sc(PrimitiveType::Double), I(6)), I(6)));
        }
        arrs.push_back({n, PrimitiveType::Double, k + 2, true, n});
        // fill it
        std::string i = indvar(), j;
        auto& f = b.add_for(s, symbolic::symbol(i), symbolic::Lt(S(i), I(k == 0 ? 8 : k == 1 ? 1 : 6)), I(0), symbolic::add(S(i), I(1)));
        scf::Sequence* root = &f.root();
        df::Subset sub{S(i)};
        if (k == 2) {
            iv.push_back(i);
            j = indvar();
            iv.pop_back();
            root = &b.add_for(*root, symbolic::symbol(j), symbolic::Lt(S(j), I(6)), I(0), symbolic::add(S(j), I(1))).root();
            sub.push_back(S(j));
        }
        auto& bl = b.add_block(*root);
        auto& t = b.add_tasklet(bl, TaskletCode::assign, "_out", {"_in"});
        auto& c = b.add_constant(bl, r.pick({"0.0", "1.5", "3.0"}), sc(PrimitiveType::Double));
        auto& on = b.add_access(bl, n);
        b.add_computational_memlet(bl, c, t, "_in", {}, sc(PrimitiveType::Double));
        b.add_computational_memlet(bl, t, "_out", on, sub, b.subject().type(n));
    }

    void stmt(scf::Sequence& s, int d) {
        --budget;
        for (int tries = 0; tries < 10; ++tries) {
            auto k = r.below(100);
            if (k < 34) {
                auto a = maybe_assigns_late();
                block(s, a);
                made_live(a);
                return;
            }
            if (k < 46) {
                if (in_map) continue;
                auto a = assigns();
                if (r.chance(0.6))
                    b.add_block(s, a);
                else
                    block_with(s, a);
                made_live(a);
                return;
            }
            if (k < 62 && d > 0) {
                if (o.parallel_bias && o.maps && map_ivs.empty() && r.chance(0.35)) {
                    pair(s);
                    return;
                }
                if (o.parallel_bias && r.chance(0.6))
                    parallel_nest(s, 1, o.maps && r.chance(0.6));
                else
                    loop(s, d);
                return;
            }
            if (k < 70 && d > 0 && map_ivs.empty()) {
                parallel_nest(s, 1, o.maps && r.chance(0.6));
                return;
            }
            if (k < 76 && d > 0 && o.whiles) {
                while_(s, d);
                return;
            }
            if (k < 86 && d > 0 && o.ifs) {
                if_(s, d);
                return;
            }
            if (k < 90 && o.views) {
                view(s);
                return;
            }
            if (k < 93) {
                local_array(s);
                return;
            }
            if (k == 93 && d > 0) {
                auto& q = b.add_sequence(s, maybe_assigns());
                seq(q, d - 1, 2);
                return;
            }
            if (k == 94 && o.heap) {
                heap(s);
                return;
            }
            if (k == 95 && in_loop && o.early && d > 0 && map_ivs.empty()) {
                auto& ie = b.add_if_else(s);
                auto& c = b.add_case(ie, cond());
                auto x = r.below(3);
                if (x == 0)
                    b.add_break(c);
                else if (x == 1)
                    b.add_continue(c);
                else if (o.returns)
                    return_(c);
                return;
            }
            if (k == 96 && o.indirect) { // symbol from memory
                auto& bl = b.add_block(s);
                std::string n = r.pick({"s0", "s1", "s2", "s3"});
                if (protect.count(n)) continue;
                scalar(n, PrimitiveType::Int64);
                auto& t = b.add_tasklet(bl, TaskletCode::assign, "_out", {"_in"});
                auto& a = b.add_access(bl, "I");
                auto& on = b.add_access(bl, n);
                std::set<std::string> no{n};
                b.add_computational_memlet(bl, a, t, "_in", {index(no)}, *pbase(PrimitiveType::Int64, 0));
                b.add_computational_memlet(bl, t, "_out", on, {}, sc(PrimitiveType::Int64));
                if (!in_if && std::find(live.begin(), live.end(), n) == live.end()) live.push_back(n);
                return;
            }
        }
    }
    void return_(scf::Sequence& s) {
        if (!ret) {
            b.add_return(s, "");
            return;
        }
        auto t = ret->primitive_type();
        if (r.chance(0.4))
            b.add_constant_return(s, types::is_floating_point(t) ? "4.5" : "7", *ret);
        else {
            std::string n = types::is_floating_point(t) ? "x0" : "s0";
            scalar(n, t);
            b.add_return(s, n);
        }
    }
    control_flow::Assignments maybe_assigns_late() { return {}; }
    void block_with(scf::Sequence& s, const control_flow::Assignments& a) {
        // the transition follows the block
        block(s, a);
    }
    void seq(scf::Sequence& s, int d, int n) {
        for (int t = 0; t < n && budget > 0; ++t) stmt(s, d);
        if (s.size() == 0) block(s);
    }

    Prog make() {
        for (auto n : {"N", "M", "P"}) scalar(n, PrimitiveType::Int64, true);
        for (auto n : {"alpha", "beta"}) scalar(n, PrimitiveType::Double, true);
        pointer_arg("A", PrimitiveType::Double, o.two_d && r.chance(0.4) ? 1 : 0);
        pointer_arg("B", PrimitiveType::Double, o.two_d && r.chance(0.3) ? 1 : 0);
        pointer_arg("C", PrimitiveType::Double, 0);
        pointer_arg("I", PrimitiveType::Int64, 0);
        pointer_arg("J", PrimitiveType::Int32, 0);
        auto& root = b.subject().root();
        // initial values
        {
            control_flow::Assignments a;
            for (auto s : {"s0", "s1", "s2", "s3"})
                if (r.chance(0.6)) {
                    scalar(s, PrimitiveType::Int64);
                    a[symbolic::symbol(s)] = r.chance(0.6) ? I(r.range(0, 4)) : S(r.pick({"N", "M", "P"}));
                    live.push_back(s);
                }
            b.add_block(root, a);
            auto init = [&](const std::string& n, PrimitiveType t, const std::string& v) {
                scalar(n, t);
                auto& bl = b.add_block(root);
                auto& tk = b.add_tasklet(bl, TaskletCode::assign, "_out", {"_in"});
                auto& c = b.add_constant(bl, v, sc(t));
                auto& on = b.add_access(bl, n);
                b.add_computational_memlet(bl, c, tk, "_in", {}, sc(t));
                b.add_computational_memlet(bl, tk, "_out", on, {}, sc(t));
            };
            for (auto x : {"x0", "x1", "x2", "x3"})
                if (r.chance(0.6)) init(x, PrimitiveType::Double, r.pick({"1.0", "0.0", "2.5"}));
            if (r.chance(0.3)) init("f0", PrimitiveType::Float, "1.5");
            if (r.chance(0.3)) init("n0", PrimitiveType::Int32, "3");
            if (r.chance(0.3)) init("n1", PrimitiveType::Int32, "1");
            if (o.bools && r.chance(0.3)) init("b0", PrimitiveType::Bool, "true");
        }
        seq(root, o.depth, 100);
        // let some results be seen
        if (r.chance(0.8)) {
            int at = 0;
            pointer_arg_quiet("OUT", PrimitiveType::Double);
            for (auto x : {"x0", "x1", "x2", "x3", "f0"})
                if (has(x) && r.chance(0.5)) out(root, "OUT", x, PrimitiveType::Double, at++);
            pointer_arg_quiet("OUTI", PrimitiveType::Int64);
            at = 0;
            for (auto x : {"s0", "s1", "s2", "s3", "n0", "w0", "i", "j"})
                if (has(x) && r.chance(x[0] == 's' || x[0] == 'n' ? 0.5 : o.after ? 0.15 : 0.0)) out(root, "OUTI", x, PrimitiveType::Int64, at++);
        }
        if (ret) return_(root);
        Prog p;
        p.sdfg = b.move();
        p.args = args;
        return p;
    }
    void pointer_arg_quiet(const std::string& n, PrimitiveType t) {
        if (opaque)
            b.add_container(n, types::Pointer(), true);
        else
            b.add_container(n, *pbase(t, 0), true);
        args[n] = {t, true};
    }
    void out(scf::Sequence& s, const std::string& arr, const std::string& x, PrimitiveType t, int at) {
        auto& bl = b.add_block(s);
        auto& tk = b.add_tasklet(bl, TaskletCode::assign, "_out", {"_in"});
        auto& a = b.add_access(bl, x);
        auto& on = b.add_access(bl, arr);
        b.add_computational_memlet(bl, a, tk, "_in", {}, b.subject().type(x));
        b.add_computational_memlet(bl, tk, "_out", on, {I(at)}, *pbase(t, 0));
    }
};

inline void Gen::heap(scf::Sequence& s) {
    std::string n = r.pick({"h0", "h1"});
    for (auto& a : arrs)
        if (a.name == n) return;
    if (!has(n)) {
        if (opaque)
            b.add_container(n, types::Pointer());
        else
            b.add_container(n, types::Pointer(sc(PrimitiveType::Double)));
    }
    auto size = r.chance(0.5) ? I(16 * 8) : symbolic::mul(I(8), symbolic::add(symbolic::mul(I(2), S("N")), I(4)));
    {
        auto& bl = b.add_block(s);
        auto& m = b.add_library_node<stdlib::MallocNode>(bl, DebugInfo(), size);
        auto& a = b.add_access(bl, n);
        b.add_computational_memlet(bl, m, "_ret", a, {}, types::Pointer(sc(PrimitiveType::Double)));
    }
    {
        auto& bl = b.add_block(s);
        auto& m = b.add_library_node<stdlib::MemsetNode>(bl, DebugInfo(), I(0), size);
        auto& a = b.add_access(bl, n);
        b.add_computational_memlet(bl, m, "_ptr", a, {}, types::Pointer(sc(PrimitiveType::Double)));
    }
    arrs.push_back({n, PrimitiveType::Double, 0, true, n});
    view_group[n] = n;
}

inline Prog make(uint64_t seed, const Opts& o) {
    vh::Rng r(seed ^ 0x5151);
    int retk = o.returns ? (int) r.below(3) : 0;
    Gen g(seed, o, retk);
    return g.make();
}

inline std::map<std::string, ip::Machine::Arg> arguments(vh::Rng& r, const Prog& p) {
    std::map<std::string, ip::Machine::Arg> m;
    for (auto& [n, a] : p.args) {
        ip::Machine::Arg x;
        x.pointer = a.pointer;
        if (a.pointer) {
            size_t k = 96, w = ip::width(a.t);
            x.bytes.resize(k * w);
            for (size_t i = 0; i < k; ++i) {
                if (a.t == PrimitiveType::Double) {
                    double d = (double) r.range(-40, 40) / 4;
                    memcpy(&x.bytes[i * w], &d, w);
                } else {
                    int64_t v = r.range(0, 7);
                    memcpy(&x.bytes[i * w], &v, w);
                }
            }
        } else if (a.t == PrimitiveType::Double)
            x.v = ip::fpv(a.t, (double) r.range(-8, 8) / 2);
        else if (n == "P")
            x.v = ip::wrap(a.t, r.range(-2, 6));
        else
            x.v = ip::wrap(a.t, r.chance(0.1) ? 0 : r.range(1, 6));
        m[n] = x;
    }
    return m;
}
} // namespace gn
