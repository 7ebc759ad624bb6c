// Properties of sdfg/src/symbolic: S01..S06.
#include "common.hpp"
#include "symgen.hpp"

#include "sdfg/serializer/json_serializer.h"
#include "sdfg/symbolic/assumptions.h"
#include "sdfg/symbolic/conjunctive_normal_form.h"
#include "sdfg/symbolic/extreme_values.h"
#include "sdfg/symbolic/maps.h"
#include "sdfg/symbolic/polynomials.h"
#include "sdfg/symbolic/series.h"
#include "sdfg/symbolic/sets.h"
#include "sdfg/symbolic/utils.h"

using namespace sdfg;
using namespace sg;
using symbolic::Expression;

static uint64_t hx(const std::string& s) { return vh::hash_str(s); }

static std::string show(const Expression& e) {
    if (e.is_null()) return "null";
    try {
        return e->__str__();
    } catch (...) {
        return "?";
    }
}

// value of e on v against the meaning m; false when they differ
static bool agree(vh::Ctx& ctx, const char* what, const Expression& e, const V& m, const Val& v, const std::string& s) {
    if (!m) return true;
    ev::overflow = false;
    V x = ev::eval(*e, ev::env_of(v));
    ctx.event("values");
    if (ev::overflow) return true;
    if (!x || !ev::same(x, m)) {
        ctx.violation(what, vh::fmt("%s of %s is %s; at %s it is %s, should be %s", what, s.c_str(), show(e).c_str(), ev::dump(v).c_str(),
                                    ev::str(x).c_str(), ev::str(m).c_str()));
        return false;
    }
    return true;
}

VH_PROP(S01) {
    Opts o;
    o.ext = rng.chance(0.25);
    bool isc = rng.chance(0.35);
    Term t;
    if (isc) {
        auto c = cond(rng, o, (int) rng.range(0, 2), (int) rng.range(0, 2));
        t = {c.e, c.m, c.s};
    } else
        t = term(rng, o, (int) rng.range(1, 4));
    std::vector<Val> vals;
    for (int i = 0; i < 6; ++i) vals.push_back(valuation(rng, o.syms));

    // substitution: a symbol by a term
    auto sub = o.syms[rng.below(o.syms.size())];
    auto st = term(rng, o, (int) rng.range(0, 2));

    Expression simp = symbolic::simplify(t.e), exp = symbolic::expand(t.e), subst;
    if (isc)
        subst = symbolic::subs(SymEngine::rcp_static_cast<const SymEngine::Boolean>(t.e), symbolic::symbol(sub), st.e);
    else
        subst = symbolic::subs(t.e, symbolic::symbol(sub), st.e);
    auto printed = serializer::JSONSerializer::expression(t.e);
    Expression back = symbolic::parse(printed);
    Expression simp2 = symbolic::simplify(exp);
    for (auto& v : vals) {
        V m = t.m(v);
        if (m) ctx.event("defined");
        if (!agree(ctx, "construct", t.e, m, v, t.s)) return;
        agree(ctx, "simplify", simp, m, v, t.s);
        agree(ctx, "expand", exp, m, v, t.s);
        agree(ctx, "simplify-expand", simp2, m, v, t.s);
        if (isc && SymEngine::is_a<SymEngine::Integer>(*back)) { // true and false are written as numbers
            agree(ctx, "parse-print", back, m, v, printed);
        } else
            agree(ctx, "parse-print", back, m, v, printed);
        Val w = v;
        V sv = st.m(v);
        if (sv) {
            w[sub] = sv->n;
            V sm = t.m(w);
            agree(ctx, "subs", subst, sm, v, t.s + " with " + sub + " := " + st.s);
        }
        // is_true and is_false decide only what always holds
        if (isc && m) {
            if (symbolic::is_true(t.e) && m->n == 0) ctx.violation("is-true", t.s);
            if (symbolic::is_false(t.e) && m->n != 0) ctx.violation("is-false", t.s);
        }
    }
    // atoms and uses: a symbol the value depends on is among the atoms
    auto at = symbolic::atoms(t.e);
    for (auto& s : o.syms) {
        bool in = false;
        for (auto& a : at) in = in || a->get_name() == s;
        if (in != symbolic::uses(t.e, s)) ctx.violation("uses", vh::fmt("uses(%s, %s) is not membership in atoms", show(t.e).c_str(), s.c_str()));
        Val v = vals[0], w = v;
        w[s] += rng.range(1, 5);
        V a = t.m(v), b = t.m(w);
        if (a && b && !ev::same(a, b)) {
            ctx.event("dependences");
            if (!in) ctx.violation("atoms", vh::fmt("%s depends on %s", show(t.e).c_str(), s.c_str()));
        }
    }
    // divide_ceil
    {
        int64_t a = rng.range(0, 200), b = rng.range(1, 17);
        auto c = symbolic::divide_ceil(symbolic::integer(a), symbolic::integer(b));
        auto d = symbolic::divide_ceil(symbolic::symbol("i"), symbolic::symbol("j"));
        Val v{{"i", a}, {"j", b}};
        agree(ctx, "divide-ceil", c, vi((a + b - 1) / b), v, std::to_string(a) + "/" + std::to_string(b));
        agree(ctx, "divide-ceil", d, vi((a + b - 1) / b), v, std::to_string(a) + "/" + std::to_string(b));
    }
    if (!SymEngine::is_a_Number(*t.e)) ctx.nontrivial(hx(show(t.e)));
    if (ctx.samples.empty()) ctx.sample({{"asked", t.s}, {"built", show(t.e)}, {"simplified", show(simp)}, {"printed", printed}});
}

VH_PROP(S02) {
    Opts o;
    o.div = o.minmax = o.fabs = o.mod = false;
    auto pick_syms = [&] {
        symbolic::SymbolVec s;
        std::vector<std::string> all = o.syms;
        rng.shuffle(all);
        size_t n = 1 + rng.below(3);
        for (size_t i = 0; i < n; ++i) s.push_back(symbolic::symbol(all[i]));
        return s;
    };
    Opts o2 = o;
    if (rng.chance(0.2)) o2.div = true;
    auto t = term(rng, o2, (int) rng.range(1, 3));
    if (rng.chance(0.6)) {
        // mostly affine in the loop symbols, with symbolic strides
        Opts p = o;
        p.syms = {"N", "M"};
        t = {symbolic::integer(0), [](const Val&) { return vi(0); }, "0"};
        for (auto s : {"i", "j", "k"}) {
            if (rng.chance(0.25)) continue;
            auto c = term(rng, p, (int) rng.range(0, 1));
            auto t0 = t;
            std::string n = s;
            t = {symbolic::add(t0.e, symbolic::mul(c.e, symbolic::symbol(n))),
                 [=](const Val& v) { return ev::add(t0.m(v), ev::mul(c.m(v), vi(v.at(n)))); }, t0.s + " + " + c.s + "*" + n};
        }
        auto c = term(rng, p, (int) rng.range(0, 2));
        auto t0 = t;
        t = {symbolic::add(t0.e, c.e), [=](const Val& v) { return ev::add(t0.m(v), c.m(v)); }, t0.s + " + " + c.s};
    }
    auto syms = pick_syms();
    if (rng.chance(0.5)) {
        syms = {symbolic::symbol("i"), symbolic::symbol("j"), symbolic::symbol("k")};
        rng.shuffle(syms);
    }
    auto poly = symbolic::polynomial(t.e, syms);
    if (poly.is_null()) {
        ctx.event("not-polynomial");
    } else {
        auto coeffs = symbolic::affine_coefficients(poly, syms);
        if (coeffs.empty())
            ctx.event("not-affine");
        else {
            ctx.event("affine");
            if (syms.size() > 1) ctx.event("several-symbols");
            auto cs = symbolic::symbol("__daisy_constant__");
            for (auto& s : syms)
                if (!coeffs.count(s)) ctx.violation("coefficient-missing", show(t.e));
            if (!coeffs.count(cs)) ctx.violation("constant-missing", show(t.e));
            // a coefficient is free of the symbols it is a coefficient for
            for (auto& [s, c] : coeffs)
                for (auto& g : syms)
                    if (symbolic::uses(c, g)) ctx.violation("coefficient-uses-symbol", vh::fmt("coefficient %s of %s in %s", show(c).c_str(), s->get_name().c_str(), show(t.e).c_str()));
            for (int i = 0; i < 5; ++i) {
                auto v = valuation(rng, o.syms);
                V m = t.m(v);
                if (!m) continue;
                V sum = vi(0);
                ev::overflow = false;
                for (auto& [s, c] : coeffs) {
                    V cv = ev::eval(*c, ev::env_of(v));
                    if (!symbolic::eq(s, cs)) cv = ev::mul(cv, vi(v.at(s->get_name())));
                    sum = ev::add(sum, cv);
                }
                ctx.event("sums");
                if (!ev::overflow && !ev::same(sum, m)) {
                    std::string l;
                    for (auto& s : syms) l += s->get_name() + " ";
                    ctx.violation("affine-coefficients", vh::fmt("coefficients of %s over (%s) add up to %s, not %s, at %s", t.s.c_str(), l.c_str(),
                                                                ev::str(sum).c_str(), ev::str(m).c_str(), ev::dump(v).c_str()));
                    break;
                }
            }
            // the inverse of an affine map
            auto s = syms[rng.below(syms.size())];
            auto inv = symbolic::affine_inverse(coeffs, s);
            if (inv.is_null()) {
                for (int i = 0; i < 3; ++i) {
                    auto v = valuation(rng, o.syms), w = v;
                    w[s->get_name()] += 1;
                    V a = t.m(v), b = t.m(w);
                    if (a && b && !ev::same(a, b)) ctx.violation("inverse-refused", vh::fmt("%s depends on %s", t.s.c_str(), s->get_name().c_str()));
                }
            } else {
                for (int i = 0; i < 4; ++i) {
                    auto v = valuation(rng, o.syms);
                    V y = t.m(v);
                    V c = ev::eval(*coeffs.at(s), ev::env_of(v));
                    if (!y || !c || c->n == 0) continue;
                    auto w = v;
                    w[s->get_name()] = y->n;
                    ev::overflow = false;
                    V x = ev::eval(*inv, ev::env_of(w));
                    ctx.event("inverses");
                    if (!ev::overflow && !ev::same(x, vi(v.at(s->get_name())))) {
                        ctx.violation("affine-inverse", vh::fmt("inverse of %s for %s is %s: gives %s, not %s, at %s", t.s.c_str(), s->get_name().c_str(), show(inv).c_str(),
                                                                ev::str(x).c_str(), ev::str(vi(v.at(s->get_name()))).c_str(), ev::dump(v).c_str()));
                        break;
                    }
                }
            }
            ctx.nontrivial(hx(show(t.e)));
        }
    }
    // symbolic::inverse with one symbol
    {
        auto s = syms[0];
        auto inv = symbolic::inverse(t.e, s);
        if (!inv.is_null()) {
            for (int i = 0; i < 3; ++i) {
                auto v = valuation(rng, o.syms), w = v;
                V y = t.m(v);
                w[s->get_name()] += 1;
                V y2 = t.m(w);
                if (!y || !y2 || ev::same(y, y2)) continue;
                w = v;
                w[s->get_name()] = y->n;
                ev::overflow = false;
                V x = ev::eval(*inv, ev::env_of(w));
                ctx.event("inverses");
                if (!ev::overflow && !ev::same(x, vi(v.at(s->get_name()))))
                    ctx.violation("inverse", vh::fmt("inverse of %s for %s is %s: gives %s at %s", t.s.c_str(), s->get_name().c_str(), show(inv).c_str(), ev::str(x).c_str(), ev::dump(v).c_str()));
            }
        }
    }
    // polynomial division
    {
        auto a = term(rng, o, (int) rng.range(0, 3)), b = term(rng, o, (int) rng.range(0, 2));
        bool zero = symbolic::eq(symbolic::expand(b.e), symbolic::zero());
        if (!zero) {
            auto [q, r] = symbolic::polynomial_div(a.e, b.e);
            ctx.event("divisions");
            if (!symbolic::eq(q, symbolic::zero())) ctx.event("quotients");
            for (int i = 0; i < 4; ++i) {
                auto v = valuation(rng, o.syms);
                ev::overflow = false;
                V x = a.m(v), y = b.m(v), qv = ev::eval(*q, ev::env_of(v)), rv = ev::eval(*r, ev::env_of(v));
                if (!x || !y) continue;
                V z = ev::add(ev::mul(qv, y), rv);
                if (ev::overflow) continue;
                if (!z || !ev::same(z, x)) {
                    ctx.violation("polynomial-div", vh::fmt("%s divided by %s gives %s rest %s: %s at %s, not %s", a.s.c_str(), b.s.c_str(), show(q).c_str(), show(r).c_str(), ev::str(z).c_str(),
                                                            ev::dump(v).c_str(), ev::str(x).c_str()));
                    break;
                }
            }
        }
    }
}

VH_PROP(S03) {
    Opts o;
    o.syms = {"i", "j", "N"};
    o.cmax = 4;
    o.fabs = false;
    o.mod = false;
    auto c = cond(rng, o, (int) rng.range(1, 3), 1);
    if (rng.chance(0.2)) {
        // a comparison with a truth value
        bool tv = rng.chance(0.5), ne = rng.chance(0.5);
        auto c0 = c;
        auto lit = tv ? symbolic::__true__() : symbolic::__false__();
        auto e = ne ? symbolic::Ne(c0.e, lit) : symbolic::Eq(c0.e, lit);
        c = {e, [=](const Val& v) -> V {
            auto x = c0.m(v);
            if (!x) return {};
            return vi((x->n == (tv ? 1 : 0)) != ne);
        }, "(" + c0.s + (ne ? " != " : " == ") + (tv ? "true)" : "false)")};
    }
    symbolic::CNF cnf;
    try {
        cnf = symbolic::conjunctive_normal_form(c.e);
    } catch (const symbolic::CNFException&) {
        ctx.event("refused");
        return;
    }
    for (auto& cl : cnf)
        for (auto& l : cl)
            if (SymEngine::is_a<SymEngine::And>(*l) || SymEngine::is_a<SymEngine::Or>(*l))
                ctx.violation("not-normal", vh::fmt("a literal of the normal form of %s is %s", c.s.c_str(), show(l).c_str()));
    ctx.event("normal-forms");
    ctx.event("clauses", cnf.size());
    for (int i = 0; i < 12; ++i) {
        auto v = valuation(rng, o.syms, -4, 5);
        V m = c.m(v);
        if (!m) continue;
        bool all = true, def = true;
        for (auto& cl : cnf) {
            bool any = false;
            for (auto& l : cl) {
                V x = ev::eval(*l, ev::env_of(v));
                if (!x) def = false;
                any = any || (x && x->n);
            }
            all = all && any;
        }
        if (!def) continue;
        ctx.event("values");
        if (all != (m->n != 0)) {
            ctx.violation("cnf-value", vh::fmt("normal form of %s is %d, not %s, at %s", c.s.c_str(), (int) all, ev::str(m).c_str(), ev::dump(v).c_str()));
            break;
        }
    }
    if (cnf.size() > 1 || (cnf.size() == 1 && cnf[0].size() > 1)) ctx.nontrivial(hx(show(c.e)));
    if (ctx.samples.empty()) ctx.sample({{"condition", c.s}, {"clauses", cnf.size()}});
}

// ---------------------------------------------------------------- a domain of symbols with assumptions
struct Dom {
    struct Sym {
        std::string n;
        bool param = false;
        int64_t step = 1;
        std::function<i128(const Val&)> lo, hi; // inclusive; for parameters the range that is tried
        std::string s;
    };
    std::vector<Sym> syms;
    symbolic::Assumptions assums;
    std::string s;

    const Sym& of(const std::string& n) const {
        for (auto& x : syms)
            if (x.n == n) return x;
        abort();
    }
    // all valuations; f returns false to stop
    bool each(const std::function<bool(const Val&)>& f) const {
        Val v;
        size_t budget = 6000;
        std::function<bool(size_t)> rec = [&](size_t k) -> bool {
            if (k == syms.size()) {
                if (!budget--) return false;
                return f(v);
            }
            auto& x = syms[k];
            i128 lo = x.lo(v), hi = x.hi(v);
            for (i128 t = lo; t <= hi; t += x.step) {
                v[x.n] = t;
                if (!rec(k + 1)) return false;
            }
            v.erase(x.n);
            return true;
        };
        return rec(0);
    }
};

static Dom make_dom(vh::Rng& r, int nparams, int nloops, bool dependent = true) {
    Dom d;
    static const char* pn[] = {"N", "M", "P"};
    static const char* ln[] = {"i", "j", "k"};
    std::vector<std::string> params;
    for (int p = 0; p < nparams; ++p) {
        Dom::Sym s;
        s.n = pn[p];
        s.param = true;
        auto sy = symbolic::symbol(s.n);
        symbolic::Assumption a(sy);
        a.constant(true);
        int kind = (int) r.below(4);
        int64_t lo = r.range(-1, 3), w = r.range(0, 3);
        if (kind == 0) lo = -2, w = 5;
        if (kind >= 1) {
            if (kind == 3) lo = 1;
            a.lower_bound_deprecated(symbolic::integer(lo));
            a.add_lower_bound(symbolic::integer(lo));
        }
        if (kind == 2) {
            a.upper_bound_deprecated(symbolic::integer(lo + w));
            a.add_upper_bound(symbolic::integer(lo + w));
            if (r.chance(0.3)) {
                a.tight_lower_bound(symbolic::integer(lo));
                a.tight_upper_bound(symbolic::integer(lo + w));
            }
        }
        s.lo = [=](const Val&) { return (i128) lo; };
        s.hi = [=](const Val&) { return (i128) (lo + (kind == 2 ? w : 3)); };
        s.s = kind == 0 ? "free" : vh::fmt("[%ld, %s]", (long) lo, kind == 2 ? std::to_string(lo + w).c_str() : "oo");
        d.assums.insert({sy, a});
        d.s += s.n + " in " + s.s + "; ";
        params.push_back(s.n);
        d.syms.push_back(s);
    }
    for (int l = 0; l < nloops; ++l) {
        Dom::Sym s;
        s.n = ln[l];
        auto sy = symbolic::symbol(s.n);
        symbolic::Assumption a(sy);
        a.constant(true);
        s.step = r.chance(0.25) ? r.range(2, 3) : 1;
        // lower
        Expression lo, hi;
        std::string los, his;
        int64_t c = r.chance(0.6) ? 0 : r.range(-3, 3);
        int lk = (int) r.below(6);
        if (lk == 0 && !params.empty() && s.step == 1) {
            auto p = params[r.below(params.size())];
            lo = symbolic::symbol(p);
            s.lo = [=](const Val& v) { return v.at(p); };
        } else if (lk == 1 && l > 0 && dependent && s.step == 1) {
            std::string p = ln[l - 1];
            lo = symbolic::add(symbolic::symbol(p), symbolic::one());
            s.lo = [=](const Val& v) { return v.at(p) + 1; };
        } else {
            lo = symbolic::integer(c);
            s.lo = [=](const Val&) { return (i128) c; };
        }
        int hk = (int) r.below(5);
        if (hk <= 1 && !params.empty()) {
            auto p = params[r.below(params.size())];
            int64_t k = r.chance(0.7) ? -1 : r.range(-2, 2);
            hi = symbolic::add(symbolic::symbol(p), symbolic::integer(k));
            s.hi = [=](const Val& v) { return v.at(p) + k; };
        } else if (hk == 2 && !params.empty()) {
            auto p = params[r.below(params.size())];
            int64_t k = c + r.range(0, 5);
            hi = symbolic::min(symbolic::sub(symbolic::symbol(p), symbolic::one()), symbolic::integer(k));
            s.hi = [=](const Val& v) { return std::min<i128>(v.at(p) - 1, k); };
        } else if (hk == 3 && l > 0 && dependent) {
            std::string p = ln[l - 1];
            hi = symbolic::symbol(p);
            s.hi = [=](const Val& v) { return v.at(p); };
        } else {
            int64_t k = c + r.range(0, 5);
            hi = symbolic::integer(k);
            s.hi = [=](const Val&) { return (i128) k; };
        }
        a.lower_bound_deprecated(lo);
        a.upper_bound_deprecated(hi);
        a.add_lower_bound(lo);
        a.add_upper_bound(hi);
        if (r.chance(s.step == 1 ? 0.5 : 0.9)) {
            a.tight_lower_bound(lo);
            if (s.step == 1) a.tight_upper_bound(hi);
        }
        a.map(symbolic::add(sy, symbolic::integer(s.step)));
        s.s = "[" + show(lo) + ", " + show(hi) + "]" + (s.step > 1 ? vh::fmt(" step %ld", (long) s.step) : "");
        d.assums.insert({sy, a});
        d.s += s.n + " in " + s.s + "; ";
        d.syms.push_back(s);
    }
    return d;
}

VH_PROP(S04) {
    auto d = make_dom(rng, (int) rng.range(0, 2), (int) rng.range(1, 3));
    Opts o;
    o.syms.clear();
    for (auto& s : d.syms) o.syms.push_back(s.n);
    o.cmax = 4;
    o.ext = rng.chance(0.15);
    auto t = term(rng, o, (int) rng.range(1, 3));
    symbolic::SymbolSet params;
    for (auto& s : d.syms)
        if (s.param && rng.chance(0.5)) params.insert(symbolic::symbol(s.n));
    bool tight = rng.chance(0.5);
    struct B {
        const char* n;
        bool lower;
        Expression e;
    };
    std::vector<B> bs;
    bs.push_back({"minimum", true, symbolic::minimum(t.e, params, d.assums)});
    bs.push_back({"maximum", false, symbolic::maximum(t.e, params, d.assums)});
    bs.push_back({"minimum_new", true, symbolic::minimum_new(t.e, params, d.assums, tight)});
    bs.push_back({"maximum_new", false, symbolic::maximum_new(t.e, params, d.assums, tight)});
    size_t n = 0;
    for (auto& b : bs) {
        if (b.e.is_null() || SymEngine::is_a<SymEngine::Infty>(*b.e) || SymEngine::is_a<SymEngine::NaN>(*b.e)) {
            ctx.event("no-bound");
            continue;
        }
        ++n;
        ctx.event("bounds");
        // a bound speaks about the parameters only
        for (auto& a : symbolic::atoms(b.e))
            if (!params.count(a)) ctx.violation(std::string(b.n) + "-names-symbol", vh::fmt("%s(%s) is %s with %s", b.n, t.s.c_str(), show(b.e).c_str(), d.s.c_str()));
    }
    if (!n) return;
    std::vector<bool> bad(bs.size());
    d.each([&](const Val& v) {
        V m = t.m(v);
        if (!m) return true;
        for (size_t i = 0; i < bs.size(); ++i) {
            auto& b = bs[i];
            if (bad[i] || b.e.is_null()) continue;
            V x = ev::eval(*b.e, ev::env_of(v));
            if (!x) continue;
            ctx.event("values");
            if (b.lower ? ev::cmp(*x, *m) > 0 : ev::cmp(*x, *m) < 0) {
                bad[i] = true;
                ctx.violation(b.n, vh::fmt("%s of %s is %s = %s, but the value is %s at %s (%s tight %d)", b.n, t.s.c_str(), show(b.e).c_str(), ev::str(x).c_str(), ev::str(m).c_str(),
                                           ev::dump(v).c_str(), d.s.c_str(), (int) tight));
            }
        }
        return true;
    });
    if (!symbolic::atoms(t.e).empty()) ctx.nontrivial(hx(show(t.e) + d.s));
    if (ctx.samples.empty()) ctx.sample({{"term", t.s}, {"domain", d.s}, {"minimum", show(bs[0].e)}, {"maximum", show(bs[1].e)}});
}

// A subscript as programs have them
static Term subscript(vh::Rng& r, const Dom& d, bool linearised) {
    std::vector<std::string> loops, params;
    for (auto& s : d.syms) (s.param ? params : loops).push_back(s.n);
    auto leafsym = [](const std::string& n) { return Term{symbolic::symbol(n), [n](const Val& v) { return vi(v.at(n)); }, n}; };
    auto cst = [](int64_t c) { return Term{symbolic::integer(c), [c](const Val&) { return vi(c); }, std::to_string(c)}; };
    auto plus = [](Term a, Term b) { return Term{symbolic::add(a.e, b.e), [=](const Val& v) { return ev::add(a.m(v), b.m(v)); }, a.s + " + " + b.s}; };
    auto times = [](Term a, Term b) { return Term{symbolic::mul(a.e, b.e), [=](const Val& v) { return ev::mul(a.m(v), b.m(v)); }, a.s + "*" + b.s}; };
    int k = (int) r.below(10);
    if (linearised && k < 7 && loops.size() >= 2) {
        // outer * stride + inner (+ offset)
        Term stride = !params.empty() && r.chance(0.5) ? leafsym(r.pick(params)) : cst(r.range(1, 7));
        auto a = loops[r.below(loops.size())], b = loops[r.below(loops.size())];
        Term t = plus(times(leafsym(a), stride), r.chance(0.8) ? leafsym(b) : times(cst(r.range(1, 3)), leafsym(b)));
        if (r.chance(0.3)) t = plus(t, cst(r.range(-2, 4)));
        if (r.chance(0.2)) t = plus(t, stride);
        if (loops.size() == 3 && r.chance(0.3)) t = plus(t, times(cst(r.range(1, 40)), leafsym(loops[2])));
        return t;
    }
    if (k == 0) return cst(r.range(-1, 5));
    if (k == 1 && !params.empty()) {
        auto p = leafsym(r.pick(params));
        return r.chance(0.4) ? times(p, p) : plus(p, cst(r.range(-1, 2)));
    }
    auto a = leafsym(loops[r.below(loops.size())]);
    if (k == 2) return times(a, a);
    if (k == 3) {
        Opts o;
        for (auto& s : d.syms) o.syms.push_back(s.n);
        o.syms.erase(o.syms.begin(), o.syms.begin() + 5);
        o.cmax = 4;
        return term(r, o, 2);
    }
    if (k == 4) {
        int64_t c = r.range(2, 3);
        return Term{symbolic::div(a.e, symbolic::integer(c)), [=](const Val& v) { return vi(a.m(v)->n / c); }, a.s + "/" + std::to_string(c)};
    }
    Term t = a;
    if (r.chance(0.4)) t = times(cst(r.range(1, 3) * (r.chance(0.15) ? -1 : 1)), t);
    if (r.chance(0.6)) t = plus(t, cst(r.range(-2, 4)));
    if (r.chance(0.2) && !params.empty()) t = plus(t, leafsym(r.pick(params)));
    if (r.chance(0.15)) t = plus(t, leafsym(loops[r.below(loops.size())]));
    return t;
}

static bool value_of(const std::vector<Term>& ts, const Val& v, std::vector<i128>& out) {
    out.clear();
    for (auto& t : ts) {
        V x = t.m(v);
        if (!x || !x->integral()) return false;
        out.push_back(x->n);
    }
    return true;
}
static symbolic::MultiExpression exprs(const std::vector<Term>& ts) {
    symbolic::MultiExpression m;
    for (auto& t : ts) m.push_back(t.e);
    return m;
}
static std::string strs(const std::vector<Term>& ts) {
    std::string s;
    for (auto& t : ts) s += "[" + t.s + "]";
    return s;
}

// Whether docc's delinearization of a subscript leaves its rows at v where a stride is symbolic: the part below a stride
// that is not a number is not below it at v (delinearize takes it to be, see known_findings.jsonl).
static bool leaves_symbolic_row(const std::vector<Term>& ts, const Dom& d, const Val& v) {
    for (auto& t : ts) {
        auto dl = symbolic::delinearize({t.e}, d.assums);
        if (dl.size() < 2) continue;
        symbolic::SymbolVec lv;
        for (auto& a : symbolic::atoms(t.e))
            if (!d.of(a->get_name()).param) lv.push_back(a);
        auto c = symbolic::affine_coefficients(symbolic::polynomial(t.e, lv), lv);
        if (c.empty()) continue;
        std::vector<std::pair<V, V>> parts; // stride, index
        std::vector<bool> number;
        for (auto& e : dl) {
            Expression stride;
            for (auto& s : lv)
                if (symbolic::uses(e, s)) stride = c.at(s);
            if (stride.is_null()) continue;
            number.push_back(SymEngine::is_a<SymEngine::Integer>(*stride));
            parts.push_back({ev::eval(*stride, ev::env_of(v)), ev::eval(*e, ev::env_of(v))});
        }
        V tail = vi(0);
        for (size_t k = parts.size(); k-- > 1;) {
            tail = ev::add(tail, ev::mul(parts[k].first, parts[k].second));
            if (number[k - 1] || !tail || !parts[k - 1].first) continue;
            if (tail->n < 0 || tail->n >= parts[k - 1].first->n) return true;
        }
    }
    return false;
}

VH_PROP(S05) {
    bool lin = rng.chance(0.5);
    auto d = make_dom(rng, (int) rng.range(0, 2), (int) rng.range(1, 3));
    size_t n1 = 1 + (rng.chance(0.3) ? 1 : 0), n2 = rng.chance(0.9) ? n1 : 3 - n1;
    std::vector<Term> a, b;
    for (size_t i = 0; i < n1; ++i) a.push_back(subscript(rng, d, lin));
    for (size_t i = 0; i < n2; ++i) b.push_back(rng.chance(0.35) && i < n1 ? a[i] : subscript(rng, d, lin));
    auto ea = exprs(a), eb = exprs(b);
    std::vector<std::string> loops;
    for (auto& s : d.syms)
        if (!s.param) loops.push_back(s.n);
    auto iv = loops[rng.below(loops.size())];
    size_t at = 0;
    for (size_t i = 0; i < d.syms.size(); ++i)
        if (d.syms[i].n == iv) at = i;
    // the second subscript may stand in another nest that uses the same symbols below iv
    auto d2 = d;
    if (rng.chance(0.3)) {
        for (size_t i = at + 1; i < d2.syms.size(); ++i) {
            auto& s = d2.syms[i];
            if (s.param) continue;
            int64_t lo = rng.range(0, 3), hi = lo + rng.range(0, 5);
            s.step = rng.chance(0.4) ? rng.range(2, 3) : 1;
            s.lo = [=](const Val&) { return (i128) lo; };
            s.hi = [=](const Val&) { return (i128) hi; };
            s.s = vh::fmt("[%ld, %ld] step %ld", (long) lo, (long) hi, (long) s.step);
            auto sy = symbolic::symbol(s.n);
            symbolic::Assumption as(sy);
            as.constant(true);
            as.lower_bound_deprecated(symbolic::integer(lo));
            as.upper_bound_deprecated(symbolic::integer(hi));
            as.add_lower_bound(symbolic::integer(lo));
            as.add_upper_bound(symbolic::integer(hi));
            as.tight_lower_bound(symbolic::integer(lo));
            as.map(symbolic::add(sy, symbolic::integer(s.step)));
            d2.assums.erase(sy);
            d2.assums.insert({sy, as});
        }
        d2.s.clear();
        for (auto& s : d2.syms) d2.s += s.n + " in " + s.s + "; ";
        ctx.event("different-nests");
    }

    bool disjoint = symbolic::is_disjoint(ea, eb, d.assums, d2.assums);
    bool subset = symbolic::is_subset(ea, eb, d.assums, d2.assums);
    // within a loop over iv: everything below it varies with it
    auto dl = d, dl2 = d2;
    for (size_t i = at + 1; i < d.syms.size(); ++i)
        if (!d.syms[i].param) {
            dl.assums.at(symbolic::symbol(d.syms[i].n)).constant(false);
            dl2.assums.at(symbolic::symbol(d.syms[i].n)).constant(false);
        }
    bool inter = symbolic::maps::intersects(ea, eb, symbolic::symbol(iv), dl.assums, dl2.assums);
    ctx.event(disjoint ? "disjoint" : "not-disjoint");
    ctx.event(subset ? "subset" : "not-subset");
    ctx.event(inter ? "may-intersect" : "never-intersect");
    auto key = [&](const char* k, const Val& v, const Val& w) {
        return std::string(leaves_symbolic_row(a, d, v) || leaves_symbolic_row(b, d2, w) ? "symbolic-row" : k);
    };
    auto where = [&] { return d.s + (d2.s == d.s ? "" : "and " + d2.s); };

    // valuations by the parameters
    typedef std::vector<i128> Key;
    auto params = [&](const Dom& d, const Val& v, size_t upto) {
        Key k;
        for (size_t i = 0; i < d.syms.size(); ++i)
            if (d.syms[i].param || i < upto) k.push_back(v.at(d.syms[i].n));
        return k;
    };
    std::vector<i128> x;
    if (disjoint) {
        std::map<std::pair<Key, Key>, Val> va;
        d.each([&](const Val& v) {
            if (value_of(a, v, x)) va.emplace(std::make_pair(params(d, v, 0), x), v);
            ctx.event("valuations");
            return true;
        });
        d2.each([&](const Val& w) {
            if (!value_of(b, w, x)) return true;
            auto it = va.find({params(d2, w, 0), x});
            if (it == va.end()) return true;
            ctx.violation(key("disjoint", it->second, w), vh::fmt("%s and %s are called disjoint but meet: at %s and %s (%s)", strs(a).c_str(), strs(b).c_str(), ev::dump(it->second).c_str(), ev::dump(w).c_str(), where().c_str()));
            return false;
        });
    }
    if (subset && n1 == n2) {
        // only finite domains show that a value is missing; the range of b is that of its own symbols
        bool complete = true;
        for (auto& s : d.syms)
            if (s.param && (s.s == "free" || s.s.find("oo") != std::string::npos)) complete = false;
        auto db = d2;
        std::set<std::string> used;
        for (auto& e : eb)
            for (auto& y : symbolic::atoms(e)) used.insert(y->get_name());
        for (bool more = true; more;) {
            more = false;
            for (auto& s : db.syms) {
                if (!used.count(s.n)) continue;
                auto& as = db.assums.at(symbolic::symbol(s.n));
                for (auto& e : {as.lower_bound_deprecated(), as.upper_bound_deprecated()})
                    for (auto& y : symbolic::atoms(e)) more = used.insert(y->get_name()).second || more;
            }
        }
        // the sets of is_subset range over the parameters as well, those of delinearized subscripts in another shape: decided
        // without parameters only
        auto used_a = used;
        for (auto& e : ea)
            for (auto& y : symbolic::atoms(e)) used_a.insert(y->get_name());
        for (auto& s : d.syms)
            if (used_a.count(s.n) && !s.param)
                for (auto& e : {d.assums.at(symbolic::symbol(s.n)).lower_bound_deprecated(), d.assums.at(symbolic::symbol(s.n)).upper_bound_deprecated()})
                    for (auto& y : symbolic::atoms(e)) used_a.insert(y->get_name());
        for (auto& s : d.syms)
            if (s.param && used_a.count(s.n)) complete = false;
        db.syms.erase(std::remove_if(db.syms.begin(), db.syms.end(), [&](auto& s) { return !used.count(s.n); }), db.syms.end());
        size_t cnt = 0, cnt2 = 0;
        std::map<Key, Val> va;
        std::set<Key> vb;
        d.each([&](const Val& v) {
            ++cnt;
            if (value_of(a, v, x)) va.emplace(x, v);
            return true;
        });
        db.each([&](const Val& v) {
            ++cnt2;
            auto w = v;
            for (auto& s : d2.syms) w.emplace(s.n, 0); // cancelled out of the expression
            if (value_of(b, w, x)) vb.insert(x);
            else complete = false;
            return true;
        });
        if (cnt >= 6000 || cnt2 >= 6000) complete = false;
        if (complete) {
            ctx.event("subsets-decided");
            for (auto& [k, v] : va)
                if (!vb.count(k)) {
                    ctx.violation(key("subset", v, v), vh::fmt("%s is called a subset of %s but its value at %s is not (%s)", strs(a).c_str(), strs(b).c_str(), ev::dump(v).c_str(), where().c_str()));
                    break;
                }
        }
    }
    if (!inter && n1 == n2) {
        // two executions that agree on the parameters and the loops around iv, with different iv
        std::map<std::pair<Key, Key>, std::map<i128, Val>> va;
        size_t tot = 0, pairs = 0;
        d.each([&](const Val& v) {
            if (value_of(a, v, x)) va[{params(d, v, at), x}].emplace(v.at(iv), v);
            return ++tot < 5000;
        });
        tot = 0;
        d2.each([&](const Val& w) {
            if (!value_of(b, w, x)) return true;
            auto it = va.find({params(d2, w, at), x});
            if (it != va.end()) {
                ++pairs;
                for (auto& [i1, v] : it->second)
                    if (i1 != w.at(iv)) {
                        ctx.violation(key("intersects", v, w), vh::fmt("%s and %s are said not to meet in different iterations of %s, but do: %s and %s (%s)", strs(a).c_str(), strs(b).c_str(), iv.c_str(),
                                                                       ev::dump(v).c_str(), ev::dump(w).c_str(), where().c_str()));
                        return false;
                    }
            }
            return ++tot < 5000;
        });
        ctx.event("pairs", pairs);
    }
    if (disjoint || subset || !inter) ctx.nontrivial(hx(strs(a) + strs(b) + where() + iv));
    if (ctx.samples.empty() && !inter) ctx.sample({{"first", strs(a)}, {"second", strs(b)}, {"domain", where()}, {"loop", iv}, {"disjoint", disjoint}, {"subset", subset}});
}

VH_PROP(S06) {
    auto d = make_dom(rng, (int) rng.range(0, 2), (int) rng.range(2, 3), false);
    std::vector<Term> a{subscript(rng, d, true)};
    if (rng.chance(0.2)) a.push_back(subscript(rng, d, true));
    auto dl = symbolic::delinearize(exprs(a), d.assums);
    if (dl.size() == a.size()) {
        bool same = true;
        for (size_t i = 0; i < a.size(); ++i) same = same && symbolic::eq(dl[i], a[i].e);
        if (same) {
            ctx.event("kept");
            return;
        }
    }
    ctx.event("delinearized");
    std::string ds;
    for (auto& e : dl) ds += "[" + show(e) + "]";
    // the delinearised subscript names the same element exactly when the linear one does (per parameter valuation)
    std::map<std::vector<i128>, std::map<std::vector<i128>, std::pair<std::vector<i128>, Val>>> fwd, bwd;
    bool bad = false;
    d.each([&](const Val& v) {
        std::vector<i128> x, y, key;
        if (!value_of(a, v, x)) return true;
        for (auto& e : dl) {
            V z = ev::eval(*e, ev::env_of(v));
            if (!z || !z->integral()) return true;
            y.push_back(z->n);
        }
        for (auto& s : d.syms)
            if (s.param) key.push_back(v.at(s.n));
        ctx.event("elements");
        auto [it, f] = fwd[key].emplace(x, std::make_pair(y, v));
        auto [jt, g] = bwd[key].emplace(y, std::make_pair(x, v));
        if (it->second.first != y || jt->second.first != x) {
            auto& o = it->second.first != y ? it->second.second : jt->second.second;
            ctx.violation(leaves_symbolic_row(a, d, o) || leaves_symbolic_row(a, d, v) ? "symbolic-row" : it->second.first != y ? "same-element-split" : "elements-merged",
                          vh::fmt("%s becomes %s: the elements at %s and %s (%s)", strs(a).c_str(), ds.c_str(), ev::dump(o).c_str(), ev::dump(v).c_str(), d.s.c_str()));
            bad = true;
        }
        return !bad;
    });
    ctx.nontrivial(hx(strs(a) + d.s));
    if (ctx.samples.empty()) ctx.sample({{"linear", strs(a)}, {"delinearized", ds}, {"domain", d.s}});
}
