// Exact evaluation of the expressions docc builds, with the meaning its generated C code gives them:
// integers, division truncating towards zero. A value that cannot be represented, a division by zero or an
// expression without a value make the result empty.
#pragma once
#include <functional>
#include <numeric>
#include <optional>
#include <string>
#include <unordered_map>

#include "sdfg/symbolic/symbolic.h"

namespace ev {
using sdfg::symbolic::Expression;
typedef __int128 i128;

struct Q {
    i128 n = 0, d = 1;
    bool integral() const { return d == 1; }
};
typedef std::optional<Q> V;

constexpr i128 LIM = (i128) 1 << 100;
inline bool overflow = false; // a value left the range of this evaluator
inline V out_of_range() {
    overflow = true;
    return {};
}
inline i128 gcd128(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a ? a : 1;
}
inline V make(i128 n, i128 d) {
    if (d == 0) return {};
    if (d < 0) n = -n, d = -d;
    i128 g = gcd128(n, d);
    n /= g, d /= g;
    if (n > LIM || n < -LIM || d > LIM) return out_of_range();
    return Q{n, d};
}
inline V add(V a, V b) {
    if (!a || !b) return {};
    i128 x, y, z, d;
    if (__builtin_mul_overflow(a->n, b->d, &x) || __builtin_mul_overflow(b->n, a->d, &y) || __builtin_add_overflow(x, y, &z) ||
        __builtin_mul_overflow(a->d, b->d, &d))
        return out_of_range();
    return make(z, d);
}
inline V mul(V a, V b) {
    if (!a || !b) return {};
    i128 n, d;
    if (__builtin_mul_overflow(a->n, b->n, &n) || __builtin_mul_overflow(a->d, b->d, &d)) return out_of_range();
    return make(n, d);
}
inline V neg(V a) { return a ? V(Q{-a->n, a->d}) : V(); }
inline int cmp(const Q& a, const Q& b) {
    V d = add(a, neg(b));
    return !d ? 0 : d->n < 0 ? -1 : d->n > 0;
}

typedef std::function<std::optional<i128>(const std::string&)> Env;
// function symbols without a fixed meaning (sizeof, ...)
typedef std::function<V(const std::string&, const SymEngine::vec_basic&)> Fun;

inline V eval(const SymEngine::Basic& e, const Env& env, const Fun& fun = {});
inline V evalb(bool b) { return Q{b ? 1 : 0, 1}; }

inline V eval(const SymEngine::Basic& e, const Env& env, const Fun& fun) {
    using namespace SymEngine;
    switch (e.get_type_code()) {
        case SYMENGINE_INTEGER: {
            auto& i = static_cast<const Integer&>(e).as_integer_class();
            if (!i.fits_slong_p()) return out_of_range();
            return Q{(i128) i.get_si(), 1};
        }
        case SYMENGINE_RATIONAL: {
            auto& r = static_cast<const Rational&>(e);
            V n = eval(*r.get_num(), env, fun), d = eval(*r.get_den(), env, fun);
            if (!n || !d) return {};
            return make(n->n, d->n);
        }
        case SYMENGINE_SYMBOL: {
            auto v = env(static_cast<const Symbol&>(e).get_name());
            if (!v) return {};
            return Q{*v, 1};
        }
        case SYMENGINE_ADD: {
            V s = Q{0, 1};
            for (auto& a : e.get_args()) s = add(s, eval(*a, env, fun));
            return s;
        }
        case SYMENGINE_MUL: {
            V s = Q{1, 1};
            for (auto& a : e.get_args()) s = mul(s, eval(*a, env, fun));
            return s;
        }
        case SYMENGINE_POW: {
            auto& p = static_cast<const Pow&>(e);
            V b = eval(*p.get_base(), env, fun), x = eval(*p.get_exp(), env, fun);
            if (!b || !x || !x->integral() || x->n > 64 || x->n < -64) return {};
            bool inv = x->n < 0;
            V r = Q{1, 1};
            for (int i = 0, n = (int) (inv ? -x->n : x->n); i < n && r; ++i) r = mul(r, b);
            if (r && inv) r = make(r->d, r->n);
            return r;
        }
        case SYMENGINE_MIN:
        case SYMENGINE_MAX: {
            V r;
            bool first = true, mx = e.get_type_code() == SYMENGINE_MAX;
            for (auto& a : e.get_args()) {
                V v = eval(*a, env, fun);
                if (!v) return {};
                if (first || (mx ? cmp(*v, *r) > 0 : cmp(*v, *r) < 0)) r = v;
                first = false;
            }
            return r;
        }
        case SYMENGINE_ABS: {
            V v = eval(*e.get_args()[0], env, fun);
            if (v && v->n < 0) v = neg(v);
            return v;
        }
        case SYMENGINE_FLOOR:
        case SYMENGINE_CEILING: {
            V v = eval(*e.get_args()[0], env, fun);
            if (!v) return {};
            i128 q = v->n / v->d, r = v->n % v->d;
            if (e.get_type_code() == SYMENGINE_FLOOR && r < 0) --q;
            if (e.get_type_code() == SYMENGINE_CEILING && r > 0) ++q;
            return Q{q, 1};
        }
        case SYMENGINE_FUNCTIONSYMBOL: {
            auto& f = static_cast<const FunctionSymbol&>(e);
            auto& n = f.get_name();
            auto args = f.get_args();
            if (n == "idiv" && args.size() == 2) {
                V a = eval(*args[0], env, fun), b = eval(*args[1], env, fun);
                if (!a || !b || !a->integral() || !b->integral() || b->n == 0) return {};
                return Q{a->n / b->n, 1};
            }
            if (n == "iabs" && args.size() == 1) {
                V a = eval(*args[0], env, fun);
                if (a && a->n < 0) a = neg(a);
                return a;
            }
            if (n == "zext_i64" && args.size() == 1) {
                V a = eval(*args[0], env, fun);
                if (!a || !a->integral()) return {};
                if (a->n < 0) a->n += (i128) 1 << 32;
                return a;
            }
            if (n == "trunc_i32" && args.size() == 1) {
                V a = eval(*args[0], env, fun);
                if (!a || !a->integral()) return {};
                return Q{(i128) (int32_t) (uint32_t) (uint64_t) (int64_t) a->n, 1};
            }
            return fun ? fun(n, args) : V();
        }
        case SYMENGINE_BOOLEAN_ATOM: return evalb(static_cast<const BooleanAtom&>(e).get_val());
        case SYMENGINE_NOT: {
            V v = eval(*static_cast<const Not&>(e).get_arg(), env, fun);
            if (!v) return {};
            return evalb(v->n == 0);
        }
        case SYMENGINE_AND: {
            bool r = true;
            for (auto& a : static_cast<const And&>(e).get_container()) {
                V v = eval(*a, env, fun);
                if (!v) return {};
                r = r && v->n != 0;
            }
            return evalb(r);
        }
        case SYMENGINE_OR: {
            bool r = false;
            for (auto& a : static_cast<const Or&>(e).get_container()) {
                V v = eval(*a, env, fun);
                if (!v) return {};
                r = r || v->n != 0;
            }
            return evalb(r);
        }
        case SYMENGINE_EQUALITY:
        case SYMENGINE_UNEQUALITY:
        case SYMENGINE_LESSTHAN:
        case SYMENGINE_STRICTLESSTHAN: {
            auto& r = static_cast<const Relational&>(e);
            V a = eval(*r.get_arg1(), env, fun), b = eval(*r.get_arg2(), env, fun);
            if (!a || !b) return {};
            int c = cmp(*a, *b);
            switch (e.get_type_code()) {
                case SYMENGINE_EQUALITY: return evalb(c == 0);
                case SYMENGINE_UNEQUALITY: return evalb(c != 0);
                case SYMENGINE_LESSTHAN: return evalb(c <= 0);
                default: return evalb(c < 0);
            }
        }
        default: return {};
    }
}

inline Env env_of(const std::unordered_map<std::string, i128>& m) {
    return [&m](const std::string& n) -> std::optional<i128> {
        auto it = m.find(n);
        if (it == m.end()) return {};
        return it->second;
    };
}
inline std::string str(const V& v) {
    if (!v) return "none";
    auto p = [](i128 x) {
        if (x == 0) return std::string("0");
        bool ng = x < 0;
        std::string s;
        while (x != 0) {
            int d = (int) (x % 10);
            s.insert(s.begin(), (char) ('0' + (d < 0 ? -d : d)));
            x /= 10;
        }
        return (ng ? "-" : "") + s;
    };
    return p(v->n) + (v->d == 1 ? "" : "/" + p(v->d));
}
inline bool same(const V& a, const V& b) { return a && b && a->n == b->n && a->d == b->d; }
inline std::string dump(const std::unordered_map<std::string, i128>& m) {
    std::map<std::string, i128> o(m.begin(), m.end());
    std::string s;
    for (auto& [k, v] : o) s += (s.empty() ? "" : " ") + k + "=" + str(Q{v, 1});
    return s;
}
} // namespace ev
