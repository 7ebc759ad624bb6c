// Random expressions and conditions together with their meaning, kept apart from the expression object.
#pragma once
#include <memory>
#include "common.hpp"
#include "eval.hpp"

namespace sg {
using namespace sdfg;
using ev::i128;
using ev::V;
typedef std::unordered_map<std::string, i128> Val;

struct Term {
    symbolic::Expression e; // what docc built
    std::function<V(const Val&)> m; // what it means
    std::string s; // how it was asked for
};
struct Cond {
    symbolic::Condition e;
    std::function<V(const Val&)> m;
    std::string s;
};

struct Opts {
    std::vector<std::string> syms{"i", "j", "k", "N", "M"};
    bool div = true, minmax = true, fabs = true, power = true, ext = false, mod = true;
    int64_t cmax = 8;
};

inline V vi(i128 x) { return ev::Q{x, 1}; }

inline Term leaf(vh::Rng& r, const Opts& o) {
    if (r.chance(0.6)) {
        auto n = r.pick(o.syms);
        return {symbolic::symbol(n), [n](const Val& v) { return vi(v.at(n)); }, n};
    }
    int64_t c = r.chance(0.1) ? r.range(-1000, 1000) : r.range(-o.cmax / 2, o.cmax);
    return {symbolic::integer(c), [c](const Val&) { return vi(c); }, std::to_string(c)};
}

inline Term term(vh::Rng& r, const Opts& o, int depth) {
    if (depth <= 0 || r.chance(0.12)) return leaf(r, o);
    for (;;) {
        int k = (int) r.below(16);
        if (k <= 3) {
            auto a = term(r, o, depth - 1), b = term(r, o, depth - 1);
            return {symbolic::add(a.e, b.e), [=](const Val& v) { return ev::add(a.m(v), b.m(v)); }, "(" + a.s + " + " + b.s + ")"};
        }
        if (k <= 5) {
            auto a = term(r, o, depth - 1), b = term(r, o, depth - 1);
            return {symbolic::sub(a.e, b.e), [=](const Val& v) { return ev::add(a.m(v), ev::neg(b.m(v))); }, "(" + a.s + " - " + b.s + ")"};
        }
        if (k <= 8) {
            auto a = term(r, o, depth - 1), b = term(r, o, depth - 1);
            return {symbolic::mul(a.e, b.e), [=](const Val& v) { return ev::mul(a.m(v), b.m(v)); }, "(" + a.s + " * " + b.s + ")"};
        }
        if (k <= 10 && o.div) {
            auto a = term(r, o, depth - 1), b = r.chance(0.6) ? leaf(r, o) : term(r, o, depth - 1);
            if (r.chance(0.3)) {
                // a multiple of the divisor, as linearised subscripts have them
                auto c = b;
                auto a0 = a;
                a = {symbolic::mul(a0.e, c.e), [=](const Val& v) { return ev::mul(a0.m(v), c.m(v)); }, "(" + a0.s + " * " + c.s + ")"};
            }
            return {symbolic::div(a.e, b.e), [=](const Val& v) -> V {
                auto x = a.m(v), y = b.m(v);
                if (!x || !y || y->n == 0) return {};
                return vi(x->n / y->n);
            }, "(" + a.s + " / " + b.s + ")"};
        }
        if (k == 11 && o.mod) {
            auto a = term(r, o, depth - 1), b = leaf(r, o);
            return {symbolic::mod(a.e, b.e), [=](const Val& v) -> V {
                auto x = a.m(v), y = b.m(v);
                if (!x || !y || y->n == 0) return {};
                return vi(x->n % y->n);
            }, "(" + a.s + " % " + b.s + ")"};
        }
        if (k <= 13 && o.minmax) {
            bool mx = k == 13;
            auto a = term(r, o, depth - 1), b = term(r, o, depth - 1);
            return {mx ? symbolic::max(a.e, b.e) : symbolic::min(a.e, b.e), [=](const Val& v) -> V {
                auto x = a.m(v), y = b.m(v);
                if (!x || !y) return {};
                return (mx ? x->n > y->n : x->n < y->n) ? x : y;
            }, std::string(mx ? "max(" : "min(") + a.s + ", " + b.s + ")"};
        }
        if (k == 14 && o.fabs) {
            auto a = term(r, o, depth - 1);
            return {symbolic::abs(a.e), [=](const Val& v) {
                auto x = a.m(v);
                return x && x->n < 0 ? ev::neg(x) : x;
            }, "abs(" + a.s + ")"};
        }
        if (k == 15 && o.power && !o.ext) {
            auto a = leaf(r, o);
            int p = (int) r.range(0, 3);
            return {symbolic::pow(a.e, symbolic::integer(p)), [=](const Val& v) {
                V x = vi(1), b = a.m(v);
                for (int i = 0; i < p; ++i) x = ev::mul(x, b);
                return x;
            }, "pow(" + a.s + ", " + std::to_string(p) + ")"};
        }
        if (k == 15 && o.ext) {
            auto a = term(r, o, depth - 1);
            if (r.chance(0.5))
                return {symbolic::trunc_i32(a.e), [=](const Val& v) -> V {
                    auto x = a.m(v);
                    if (!x) return {};
                    return vi((int32_t) (uint32_t) (uint64_t) (int64_t) x->n);
                }, "trunc(" + a.s + ")"};
            // zero extension of a 32 bit value
            return {symbolic::zext_i64(a.e), [=](const Val& v) -> V {
                auto x = a.m(v);
                if (!x || x->n > INT32_MAX || x->n < INT32_MIN) return {};
                return vi(x->n < 0 ? x->n + ((i128) 1 << 32) : x->n);
            }, "zext(" + a.s + ")"};
        }
    }
}

inline Cond rel(vh::Rng& r, const Opts& o, int depth) {
    auto a = term(r, o, depth), b = term(r, o, depth);
    int k = (int) r.below(6);
    symbolic::Condition c;
    static const char* nm[] = {"==", "!=", "<", "<=", ">", ">="};
    switch (k) {
        case 0: c = symbolic::Eq(a.e, b.e); break;
        case 1: c = symbolic::Ne(a.e, b.e); break;
        case 2: c = symbolic::Lt(a.e, b.e); break;
        case 3: c = symbolic::Le(a.e, b.e); break;
        case 4: c = symbolic::Gt(a.e, b.e); break;
        default: c = symbolic::Ge(a.e, b.e);
    }
    return {c, [=](const Val& v) -> V {
        auto x = a.m(v), y = b.m(v);
        if (!x || !y) return {};
        int d = ev::cmp(*x, *y);
        bool t = k == 0 ? d == 0 : k == 1 ? d != 0 : k == 2 ? d < 0 : k == 3 ? d <= 0 : k == 4 ? d > 0 : d >= 0;
        return vi(t);
    }, "(" + a.s + " " + nm[k] + " " + b.s + ")"};
}

inline Cond cond(vh::Rng& r, const Opts& o, int depth, int tdepth) {
    if (depth <= 0 || r.chance(0.2)) {
        if (r.chance(0.04)) {
            bool t = r.chance(0.5);
            return {t ? symbolic::__true__() : symbolic::__false__(), [=](const Val&) { return vi(t); }, t ? "true" : "false"};
        }
        return rel(r, o, tdepth);
    }
    int k = (int) r.below(5);
    if (k == 0) {
        auto a = cond(r, o, depth - 1, tdepth);
        return {symbolic::Not(a.e), [=](const Val& v) -> V {
            auto x = a.m(v);
            if (!x) return {};
            return vi(x->n == 0);
        }, "!" + a.s};
    }
    auto a = cond(r, o, depth - 1, tdepth), b = cond(r, o, depth - 1, tdepth);
    bool an = k <= 2;
    return {an ? symbolic::And(a.e, b.e) : symbolic::Or(a.e, b.e), [=](const Val& v) -> V {
        auto x = a.m(v), y = b.m(v);
        if (!x || !y) return {};
        return vi(an ? (x->n && y->n) : (x->n || y->n));
    }, "(" + a.s + (an ? " && " : " || ") + b.s + ")"};
}

inline Val valuation(vh::Rng& r, const std::vector<std::string>& syms, int64_t lo = -12, int64_t hi = 12) {
    Val v;
    bool big = r.chance(0.1);
    for (auto& s : syms) v[s] = big ? r.range(-2000, 2000) : r.range(lo, hi);
    return v;
}
} // namespace sg
