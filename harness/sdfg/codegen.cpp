// What the code generators write does what the program means.
#include "native.hpp"
#include "symgen.hpp"

using namespace sdfg;
using types::PrimitiveType;

VH_PROP(E01) {
    bool cpp = rng.chance(0.5);
    std::string flags = rng.chance(0.4) ? "-O0" : "-O1 -fwrapv -fno-strict-aliasing";
    std::vector<xf::Case> cases;
    std::vector<nat::Unit> units;
    std::vector<std::string> texts;
    for (int i = 0; i < 8; ++i) {
        gn::Opts o;
        o.budget = (int) rng.range(2, 14);
        if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
        o.parallel_bias = rng.chance(0.25);
        o.strict_types = true;
        uint64_t seed = 0;
        auto c = xf::make_case(ctx, rng, o, seed);
        if (!c) continue;
        nat::Unit u;
        u.name = "prog_" + std::to_string(i);
        u.args = c->p.args;
        std::string t = xf::text(*c->p.sdfg);
        try {
            nat::generate(ctx, *c->p.sdfg, cpp, u);
        } catch (const std::exception& e) {
            ctx.violation("generate", vh::fmt("code generation fails: %s\n", e.what()) + t);
            continue;
        }
        // code generation leaves the program alone
        if (t != xf::text(*c->p.sdfg)) ctx.violation("changed", "code generation changed the program\n" + t);
        cases.push_back(std::move(*c));
        units.push_back(std::move(u));
        texts.push_back(t);
    }
    if (units.empty()) return;
    std::string so;
    auto msg = nat::compile(ctx, units, cpp, flags, so);
    if (!msg.empty()) {
        for (size_t i = 0; i < units.size(); ++i) {
            auto one = nat::compile(ctx, {units[i]}, cpp, flags, so);
            if (!one.empty()) ctx.violation("compile", "generated code does not compile:\n" + one + "\n" + texts[i] + units[i].source);
        }
        return;
    }
    std::vector<nat::Call> calls;
    std::vector<size_t> nth;
    for (size_t i = 0; i < cases.size(); ++i)
        for (size_t k = 0; k < cases[i].args.size(); ++k) {
            calls.push_back({i, &cases[i].args[k], {}, false});
            nth.push_back(k);
        }
    nat::run(so, units, calls);
    ctx.event(cpp ? "C++ programs" : "C programs", units.size());
    std::set<size_t> bad;
    for (size_t j = 0; j < calls.size(); ++j) {
        auto& c = cases[calls[j].unit];
        ctx.event("native runs compared");
        std::string d = calls[j].got.problem.empty() ? xf::differ(c.p, c.want[nth[j]], calls[j].got) : calls[j].got.problem;
        if (!d.empty() && bad.insert(calls[j].unit).second)
            ctx.violation(cpp ? "C++" : "C", d + " for " + xf::show_args(c.p, *calls[j].args) + "(" + flags + ")\n" + texts[calls[j].unit] + units[calls[j].unit].source);
    }
    for (size_t i = 0; i < units.size(); ++i) ctx.nontrivial(vh::hash_str(texts[i]));
}

// Every operation on every type, on special values
namespace {
using df_t = data_flow::TaskletCode;
struct OpInfo {
    df_t c;
    const char* name;
    int kind; // 0 assign, 1 fp, 2 fp comparison, 3 int, 4 int comparison
    int sign; // 0 either, 1 signed, 2 unsigned
};
#define OP(n, k, s) {df_t::n, #n, k, s}
const std::vector<OpInfo> ops{
    OP(assign, 0, 0),   OP(fp_neg, 1, 0),   OP(fp_add, 1, 0),   OP(fp_sub, 1, 0),   OP(fp_mul, 1, 0),   OP(fp_div, 1, 0),   OP(fp_rem, 1, 0),
    OP(fp_fma, 1, 0),   OP(fp_oeq, 2, 0),   OP(fp_one, 2, 0),   OP(fp_oge, 2, 0),   OP(fp_ogt, 2, 0),   OP(fp_ole, 2, 0),   OP(fp_olt, 2, 0),
    OP(fp_ord, 2, 0),   OP(fp_ueq, 2, 0),   OP(fp_une, 2, 0),   OP(fp_ugt, 2, 0),   OP(fp_uge, 2, 0),   OP(fp_ult, 2, 0),   OP(fp_ule, 2, 0),
    OP(fp_uno, 2, 0),   OP(int_add, 3, 0),  OP(int_sub, 3, 0),  OP(int_mul, 3, 0),  OP(int_sdiv, 3, 1), OP(int_srem, 3, 1), OP(int_udiv, 3, 2),
    OP(int_urem, 3, 2), OP(int_and, 3, 0),  OP(int_or, 3, 0),   OP(int_xor, 3, 0),  OP(int_shl, 3, 0),  OP(int_ashr, 3, 1), OP(int_lshr, 3, 2),
    OP(int_smin, 3, 1), OP(int_smax, 3, 1), OP(int_scmp, 3, 1), OP(int_umin, 3, 2), OP(int_umax, 3, 2), OP(int_ucmp, 3, 2), OP(int_eq, 4, 0),
    OP(int_ne, 4, 0),   OP(int_sge, 4, 1),  OP(int_sgt, 4, 1),  OP(int_sle, 4, 1),  OP(int_slt, 4, 1),  OP(int_uge, 4, 2),  OP(int_ugt, 4, 2),
    OP(int_ule, 4, 2),  OP(int_ult, 4, 2),  OP(int_abs, 3, 1),
};
#undef OP
typedef ev::i128 i128;

ip::Val sample(vh::Rng& r, PrimitiveType t, int trial) {
    if (types::is_floating_point(t)) {
        static const double sp[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 0.5, 2.0, -3.5, 1e-310, 1e300, 1e30, -1e-40, 255.0, -128.0, 3.0};
        if (r.chance(0.7)) return ip::fpv(t, sp[r.below(sizeof sp / sizeof *sp)]);
        return ip::fpv(t, (double) r.range(-4000, 4000) / 8);
    }
    if (t == PrimitiveType::Bool) return ip::wrap(t, (i128) r.below(2));
    int w = (int) ip::width(t) * 8;
    i128 v;
    switch (r.below(8)) {
        case 0: v = 0; break;
        case 1: v = r.range(-2, 2); break;
        case 2: v = ((i128) 1) << (w - 1); break; // smallest signed
        case 3: v = (((i128) 1) << (w - 1)) - 1; break;
        case 4: v = -1; break;
        case 5: v = ((i128) 1) << r.below(w); break;
        case 6: v = r.range(-300, 300); break;
        default: v = (i128) r.next(); break;
    }
    return ip::wrap(t, v);
}
i128 as_signed(const ip::Val& v) {
    int w = (int) ip::width(v.t) * 8;
    i128 m = v.i & ((((i128) 1) << w) - 1);
    return m >> (w - 1) & 1 ? m - (((i128) 1) << w) : m;
}
i128 as_uns(const ip::Val& v) { return v.i & ((((i128) 1) << (8 * ip::width(v.t))) - 1); }

// What the operation means; nothing where C leaves it open
std::optional<ip::Val> meaning(const OpInfo& o, const std::vector<ip::Val>& in, PrimitiveType out) {
    auto t = in[0].t;
    int w = (int) ip::width(t) * 8;
    if (o.kind == 0) {
        if (out == PrimitiveType::Bool && !in[0].fp() && in[0].i != 0 && in[0].i != 1) return std::nullopt; // truncation or test?
        if (out == PrimitiveType::Bool && in[0].fp()) return std::nullopt;
        if (in[0].fp() && !types::is_floating_point(out)) {
            double x = std::trunc(in[0].d);
            if (!(x > -9.2e18 && x < 1.8e19)) return std::nullopt;
            auto v = ip::wrap(out, (i128) x);
            if ((double) v.i != x) return std::nullopt;
            return v;
        }
        return ip::convert(in[0], out);
    }
    if (o.kind == 1) {
        auto f = [&](auto a, auto b, auto c) -> double {
            switch (o.c) {
                case df_t::fp_neg: return -a;
                case df_t::fp_add: return a + b;
                case df_t::fp_sub: return a - b;
                case df_t::fp_mul: return a * b;
                case df_t::fp_div: return a / b;
                case df_t::fp_rem: return std::fmod(a, b);
                default: return a * b + c;
            }
        };
        double a = in[0].d, b = in.size() > 1 ? in[1].d : 0, c = in.size() > 2 ? in[2].d : 0;
        if (o.c == df_t::fp_fma) { // rounded once or twice
            volatile double p = t == PrimitiveType::Float ? (double) ((float) a * (float) b) : a * b;
            double two = t == PrimitiveType::Float ? (double) ((float) p + (float) c) : p + c;
            double one = t == PrimitiveType::Float ? (double) std::fma((float) a, (float) b, (float) c) : std::fma(a, b, c);
            if (!(two == one) && !(std::isnan(two) && std::isnan(one))) return std::nullopt;
            return ip::fpv(out, two);
        }
        return ip::fpv(out, t == PrimitiveType::Float ? f((float) a, (float) b, (float) c) : f(a, b, c));
    }
    if (o.kind == 2) {
        double a = in[0].d, b = in[1].d;
        bool nan = std::isnan(a) || std::isnan(b), r = false;
        switch (o.c) {
            case df_t::fp_oeq: r = !nan && a == b; break;
            case df_t::fp_one: r = !nan && a != b; break;
            case df_t::fp_oge: r = !nan && a >= b; break;
            case df_t::fp_ogt: r = !nan && a > b; break;
            case df_t::fp_ole: r = !nan && a <= b; break;
            case df_t::fp_olt: r = !nan && a < b; break;
            case df_t::fp_ord: r = !nan; break;
            case df_t::fp_ueq: r = nan || a == b; break;
            case df_t::fp_une: r = nan || a != b; break;
            case df_t::fp_ugt: r = nan || a > b; break;
            case df_t::fp_uge: r = nan || a >= b; break;
            case df_t::fp_ult: r = nan || a < b; break;
            case df_t::fp_ule: r = nan || a <= b; break;
            default: r = nan; break;
        }
        return ip::wrap(out, r);
    }
    bool neg = o.sign == 1 || (o.sign == 0 && types::is_signed(t));
    i128 a = neg ? as_signed(in[0]) : as_uns(in[0]), b = in.size() < 2 ? 0 : neg ? as_signed(in[1]) : as_uns(in[1]);
    bool wide = w >= 32 && neg; // C computes in this type: no overflow
    i128 lo = -(((i128) 1) << (w - 1)), hi = (((i128) 1) << (w - 1)) - 1;
    auto res = [&](i128 r) -> std::optional<ip::Val> {
        if (wide && (r < lo || r > hi)) return std::nullopt;
        if (w < 32 && (r < -2147483648LL || r > 2147483647LL)) return std::nullopt;
        return ip::wrap(out, r);
    };
    switch (o.c) {
        case df_t::int_add: return res(a + b);
        case df_t::int_sub: return res(a - b);
        case df_t::int_mul: return res(w == 64 && !neg ? (i128) ((uint64_t) a * (uint64_t) b) : a * b);
        case df_t::int_sdiv:
        case df_t::int_udiv:
            if (!b) return std::nullopt;
            return res(a / b);
        case df_t::int_srem:
        case df_t::int_urem:
            if (!b || (b == -1 && a == lo)) return std::nullopt;
            return res(a % b);
        case df_t::int_and: return ip::wrap(out, a & b);
        case df_t::int_or: return ip::wrap(out, a | b);
        case df_t::int_xor: return ip::wrap(out, a ^ b);
        case df_t::int_shl:
            if (b < 0 || b >= w || a < 0) return std::nullopt;
            if (neg && (w == 64 ? b > 62 || (a << (int) b) > hi : (a << (int) b) > 2147483647LL)) return std::nullopt;
            return ip::wrap(out, (i128) ((unsigned __int128) a << (int) b));
        case df_t::int_ashr:
        case df_t::int_lshr:
            if (b < 0 || b >= w) return std::nullopt;
            return ip::wrap(out, a >> (int) b);
        case df_t::int_smin:
        case df_t::int_umin: return ip::wrap(out, std::min(a, b));
        case df_t::int_smax:
        case df_t::int_umax: return ip::wrap(out, std::max(a, b));
        case df_t::int_scmp:
        case df_t::int_ucmp: return ip::wrap(out, a < b ? -1 : a > b);
        case df_t::int_eq: return ip::wrap(out, a == b);
        case df_t::int_ne: return ip::wrap(out, a != b);
        case df_t::int_sge:
        case df_t::int_uge: return ip::wrap(out, a >= b);
        case df_t::int_sgt:
        case df_t::int_ugt: return ip::wrap(out, a > b);
        case df_t::int_sle:
        case df_t::int_ule: return ip::wrap(out, a <= b);
        case df_t::int_slt:
        case df_t::int_ult: return ip::wrap(out, a < b);
        case df_t::int_abs: return res(a < 0 ? -a : a);
        default: return std::nullopt;
    }
}
void put(std::vector<uint8_t>& v, size_t i, const ip::Val& x) {
    size_t w = ip::width(x.t);
    if (x.t == PrimitiveType::Float) {
        float f = (float) x.d;
        memcpy(&v[i * w], &f, w);
    } else if (x.fp())
        memcpy(&v[i * w], &x.d, w);
    else {
        uint64_t u = (uint64_t) x.i;
        memcpy(&v[i * w], &u, w);
    }
}
} // namespace

VH_PROP(E02) {
    using P = PrimitiveType;
    // Known finding (uint8-char, case 0): in C, UInt8 is char, which is signed. Other cases leave these types out.
    bool directed = ctx.case_no == 0;
    bool cpp = !directed && rng.chance(0.5);
    const int n = 48, k = 12;
    static const std::vector<P> ints{P::Int8, P::Int16, P::Int32, P::Int64}, uns{P::UInt8, P::UInt16, P::UInt32, P::UInt64}, fps{P::Float, P::Double};
    struct One {
        const OpInfo* o;
        P in, out;
        bool chars = false;
        std::vector<std::optional<ip::Val>> want;
        std::vector<std::string> show;
    };
    std::vector<One> ones;
    builder::StructuredSDFGBuilder b("prog", FunctionType_CPU);
    gn::Prog p;
    xf::Args args;
    b.add_container("i", types::Scalar(P::Int64));
    auto iv = symbolic::symbol("i");
    auto& loop = b.add_for(b.subject().root(), iv, symbolic::Lt(iv, symbolic::integer(n)), symbolic::zero(), symbolic::add(iv, symbolic::one()));
    bool opaque = rng.chance(0.5);
    for (int q = 0; q < k; ++q) {
        One x;
        x.o = &ops[(ctx.case_no * k + q) % ops.size()];
        if (directed)
            for (auto& o : ops)
                if (o.c == (q % 2 ? df_t::int_ult : df_t::int_udiv)) x.o = &o;
        bool chars = false;
        auto is_char = [&] { // in C
            return x.in == P::UInt8 || (x.o->sign == 2 && x.in == P::Int8) || (x.out == P::UInt8 && types::is_floating_point(x.in));
        };
        auto pick = [&]() -> P {
            if (x.o->kind == 1 || x.o->kind == 2) return rng.pick(fps);
            if (x.o->sign == 1) return rng.pick(ints);
            if (x.o->kind == 0) {
                auto y = rng.below(20);
                return y == 0 ? P::Bool : y < 6 ? rng.pick(fps) : y < 13 ? rng.pick(ints) : rng.pick(uns);
            }
            return rng.chance(0.5) ? rng.pick(ints) : rng.pick(uns);
        };
        do {
            x.in = directed ? P::UInt8 : pick();
            x.out = x.o->kind == 0 ? pick() : x.o->kind == 2 || x.o->kind == 4 ? P::Bool : x.in;
            if (x.o->c == df_t::int_scmp || x.o->c == df_t::int_ucmp) x.out = rng.pick(ints);
            chars = !cpp && is_char();
        } while (chars && !directed);
        x.chars = chars;
        size_t ar = data_flow::arity(x.o->c);
        std::vector<std::vector<ip::Val>> in(n);
        for (int i = 0; i < n; ++i) {
            for (int t = 0; t < 40; ++t) {
                in[i].clear();
                for (size_t a = 0; a < ar; ++a) in[i].push_back(sample(rng, x.in, t));
                if ((x.o->c == df_t::int_shl || x.o->c == df_t::int_ashr || x.o->c == df_t::int_lshr))
                    in[i][1] = ip::wrap(x.in, (i128) rng.below(8 * ip::width(x.in)));
                if (meaning(*x.o, in[i], x.out)) break;
            }
            auto m = meaning(*x.o, in[i], x.out);
            if (!m) // something harmless
                for (auto& v : in[i]) v = v.fp() ? ip::fpv(v.t, 1) : ip::wrap(v.t, 1);
            x.want.push_back(meaning(*x.o, in[i], x.out));
            std::string s;
            for (auto& v : in[i]) s += ip::show(v) + " ";
            x.show.push_back(s);
        }
        auto& bl = b.add_block(loop.root());
        std::vector<std::string> conns;
        for (size_t a = 0; a < ar; ++a) conns.push_back("_in" + std::to_string(a));
        auto& t = b.add_tasklet(bl, x.o->c, "_out", conns);
        auto arr = [&](const std::string& name, P ty) {
            b.add_container(name, opaque ? types::Pointer() : types::Pointer(types::Scalar(ty)), true);
            p.args[name] = {ty, true};
            args[name].pointer = true;
            args[name].bytes.assign(n * ip::width(ty), 0x5c);
        };
        for (size_t a = 0; a < ar; ++a) {
            std::string name = "A" + std::to_string(q) + "_" + std::to_string(a);
            arr(name, x.in);
            for (int i = 0; i < n; ++i) put(args[name].bytes, i, in[i][a]);
            auto& nd = b.add_access(bl, name);
            b.add_computational_memlet(bl, nd, t, conns[a], {iv}, types::Pointer(types::Scalar(x.in)));
        }
        std::string on = "O" + std::to_string(q);
        arr(on, x.out);
        auto& nd = b.add_access(bl, on);
        b.add_computational_memlet(bl, t, "_out", nd, {iv}, types::Pointer(types::Scalar(x.out)));
        ones.push_back(std::move(x));
    }
    p.sdfg = b.move();
    nat::Unit u;
    u.name = "prog_0";
    u.args = p.args;
    try {
        p.sdfg->validate();
        nat::generate(ctx, *p.sdfg, cpp, u);
    } catch (const std::exception& e) {
        ctx.violation("generate", vh::fmt("code generation fails: %s\n", e.what()) + xf::text(*p.sdfg));
        return;
    }
    std::string so;
    auto msg = nat::compile(ctx, {u}, cpp, rng.chance(0.5) ? "-O0" : "-O1", so);
    if (!msg.empty()) {
        ctx.violation("compile", msg + "\n" + u.source);
        return;
    }
    std::vector<nat::Call> calls{{0, &args, {}, false}};
    nat::run(so, {u}, calls);
    auto& got = calls[0].got;
    if (!got.problem.empty()) {
        ctx.violation("crash", got.problem + "\n" + u.source);
        return;
    }
    for (int q = 0; q < k; ++q) {
        auto& x = ones[q];
        auto& bytes = got.mem["O" + std::to_string(q)];
        std::string what = std::string(x.o->name) + " " + std::to_string((int) x.in) + "->" + std::to_string((int) x.out);
        std::string key = x.chars ? "uint8-char" : (cpp ? "C++ " : "C ") + std::string(x.o->name) + " " + types::primitive_type_to_string(x.in) + " " + types::primitive_type_to_string(x.out);
        bool bad = false;
        ctx.event(x.o->name);
        for (int i = 0; i < n; ++i) {
            if (!x.want[i]) continue;
            ctx.event("values compared");
            xf::Result a, c;
            std::vector<uint8_t> w(ip::width(x.out));
            put(w, 0, *x.want[i]);
            size_t ww = w.size();
            if (x.out == P::Float || x.out == P::Double) {
                double g, y;
                if (ww == 8)
                    memcpy(&g, &bytes[i * 8], 8), memcpy(&y, w.data(), 8);
                else {
                    float f;
                    memcpy(&f, &bytes[i * 4], 4), g = f;
                    memcpy(&f, w.data(), 4), y = f;
                }
                if ((std::isnan(g) && std::isnan(y)) || (g == y && std::signbit(g) == std::signbit(y))) continue;
                if (!bad) ctx.violation(key,
                              vh::fmt("%s of %s is %.17g, should be %.17g\n", what.c_str(), x.show[i].c_str(), g, y));
                bad = true;
            } else if (memcmp(&bytes[i * ww], w.data(), ww)) {
                uint64_t g = 0, y = 0;
                memcpy(&g, &bytes[i * ww], ww), memcpy(&y, w.data(), ww);
                if (!bad) ctx.violation(key,
                              vh::fmt("%s of %s is %llx, should be %llx\n", what.c_str(), x.show[i].c_str(), (unsigned long long) g, (unsigned long long) y));
                bad = true;
            }
        }
        ctx.nontrivial(vh::hash_str(what + x.show[0] + x.show[1] + (cpp ? "+" : "")));
    }
}

// Symbolic expressions and conditions as the generators print them
VH_PROP(E03) {
    using P = PrimitiveType;
    bool cpp = rng.chance(0.5);
    struct One {
        sg::Term t;
        sg::Cond c;
        bool is_cond;
        std::vector<std::pair<xf::Args, i128>> runs;
    };
    std::vector<One> ones;
    std::vector<nat::Unit> units;
    std::map<std::string, P> types{{"i", P::Int64}, {"j", P::Int64}, {"N", P::Int64}, {"a", P::Int32}, {"h", P::Int16}};
    for (int q = 0; q < 20; ++q) {
        sg::Opts o;
        o.syms = {"i", "j", "N", "a", "h"};
        o.ext = false;
        int depth = (int) rng.range(1, 3);
        One x;
        x.is_cond = rng.chance(0.4);
        if (x.is_cond)
            x.c = sg::cond(rng, o, 2, depth - 1);
        else
            x.t = sg::term(rng, o, depth);
        auto s = x.is_cond ? x.c.s : x.t.s;
        bool large = false;
        for (size_t i = 0, n = 0; i < s.size(); ++i) large |= (n = isdigit((unsigned char) s[i]) ? n + 1 : 0) >= 3;
        if (large && depth > 1) continue;
        if (!x.is_cond && rng.chance(0.15)) { // truncation
            auto t = x.t;
            x.t = {symbolic::trunc_i32(symbolic::mul(t.e, symbolic::integer(1000003))), [t](const sg::Val& v) -> ev::V {
                       auto y = t.m(v);
                       if (!y) return {};
                       return sg::vi((int32_t) (uint32_t) (uint64_t) (int64_t) (y->n * 1000003));
                   }, "trunc(1000003 * " + t.s + ")"};
        }
        builder::StructuredSDFGBuilder b("prog", FunctionType_CPU);
        gn::Prog p;
        for (auto& [n, t] : types) b.add_container(n, types::Scalar(t), true), p.args[n] = {t, false};
        b.add_container("O", types::Pointer(), true), p.args["O"] = {P::Int64, true};
        b.add_container("r", types::Scalar(P::Int64));
        auto r = symbolic::symbol("r");
        auto& root = b.subject().root();
        if (x.is_cond) {
            b.add_block(root, {{r, symbolic::zero()}});
            auto& ie = b.add_if_else(root);
            b.add_block(b.add_case(ie, x.c.e), {{r, symbolic::one()}});
        } else
            b.add_block(root, {{r, x.t.e}});
        auto& bl = b.add_block(root);
        auto& t = b.add_tasklet(bl, df_t::assign, "_out", {"_in"});
        b.add_computational_memlet(bl, b.add_access(bl, "r"), t, "_in", {}, types::Scalar(P::Int64));
        b.add_computational_memlet(bl, t, "_out", b.add_access(bl, "O"), {symbolic::zero()}, types::Pointer(types::Scalar(P::Int64)));
        for (int k = 0; k < 10; ++k) {
            auto v = sg::valuation(rng, o.syms, -9, 9);
            bool big = false;
            for (auto& [n, y] : v) big |= y > 9 || y < -9;
            if (big) continue;
            ev::overflow = false;
            auto m = x.is_cond ? x.c.m(v) : x.t.m(v);
            if (!m || !m->integral() || ev::overflow || m->n > (1ll << 60) || m->n < -(1ll << 60)) continue;
            // what docc made of it must be defined as well
            auto d = ev::eval(*(x.is_cond ? symbolic::Expression(x.c.e) : x.t.e), ev::env_of(v));
            if (!d || ev::overflow) continue;
            xf::Args a;
            for (auto& [n, t] : types) a[n].v = ip::wrap(t, v.at(n));
            a["O"].pointer = true;
            a["O"].bytes.assign(8, 0x11);
            x.runs.push_back({a, m->n});
        }
        if (x.runs.empty()) continue;
        p.sdfg = b.move();
        nat::Unit u;
        u.name = "prog_" + std::to_string(q);
        u.args = p.args;
        try {
            p.sdfg->validate();
            nat::generate(ctx, *p.sdfg, cpp, u);
        } catch (const std::exception& e) {
            ctx.violation("generate", s + ": code generation fails: " + e.what());
            continue;
        }
        units.push_back(std::move(u));
        ones.push_back(std::move(x));
    }
    if (units.empty()) return;
    std::string so, flags = std::string(rng.chance(0.5) ? "-O0" : "-O1") + " -fwrapv";
    auto msg = nat::compile(ctx, units, cpp, flags, so);
    if (!msg.empty()) {
        for (size_t i = 0; i < units.size(); ++i) {
            auto m = nat::compile(ctx, {units[i]}, cpp, flags, so);
            if (!m.empty()) ctx.violation("compile", (ones[i].is_cond ? ones[i].c.s : ones[i].t.s) + "\n" + m + units[i].source);
        }
        return;
    }
    std::vector<nat::Call> calls;
    std::vector<size_t> nth;
    for (size_t i = 0; i < ones.size(); ++i)
        for (size_t k = 0; k < ones[i].runs.size(); ++k) calls.push_back({i, &ones[i].runs[k].first, {}, false}), nth.push_back(k);
    nat::run(so, units, calls);
    std::set<size_t> bad;
    for (size_t j = 0; j < calls.size(); ++j) {
        auto& x = ones[calls[j].unit];
        auto& c = calls[j];
        ctx.event(x.is_cond ? "conditions compared" : "terms compared");
        std::string d = c.got.problem;
        int64_t g = 0;
        if (d.empty()) {
            memcpy(&g, c.got.mem.at("O").data(), 8);
            if ((i128) g == x.runs[nth[j]].second) continue;
            d = vh::fmt("is %lld, should be %lld", (long long) g, (long long) x.runs[nth[j]].second);
        }
        gn::Prog p;
        if (bad.insert(c.unit).second)
            ctx.violation(cpp ? "C++" : "C", (x.is_cond ? x.c.s : x.t.s) + " " + d + " for " + xf::show_args(p, *c.args) + "\n" + units[c.unit].source);
    }
    for (auto& x : ones) ctx.nontrivial(vh::hash_str(x.is_cond ? x.c.s : x.t.s));
}
