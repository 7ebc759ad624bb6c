// Executes a StructuredSDFG with the meaning its generated C code has, on a simulated memory, and reports every
// access to the installed hooks.
//
// Memory is a set of buffers at simulated addresses, so that pointers are ordinary 8-byte values. A program that
// overflows, divides by zero, leaves a buffer or (strict) reads memory nobody wrote has no defined result: Undefined.
#pragma once
#include <cfloat>
#include <climits>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "common.hpp"
#include "eval.hpp"
#include "sdfg/codegen/utils.h"
#include "sdfg/data_flow/access_node.h"
#include "sdfg/data_flow/data_flow_graph.h"
#include "sdfg/data_flow/library_nodes/stdlib/stdlib.h"
#include "sdfg/data_flow/tasklet.h"
#include "sdfg/structured_control_flow/block.h"
#include "sdfg/structured_control_flow/for.h"
#include "sdfg/structured_control_flow/if_else.h"
#include "sdfg/structured_control_flow/map.h"
#include "sdfg/structured_control_flow/return.h"
#include "sdfg/structured_control_flow/sequence.h"
#include "sdfg/structured_control_flow/while.h"
#include "sdfg/structured_sdfg.h"
#include "sdfg/types/array.h"
#include "sdfg/types/pointer.h"
#include "sdfg/types/scalar.h"
#include "sdfg/types/structure.h"
#include "sdfg/types/tensor.h"

namespace ip {
using namespace sdfg;
namespace df = sdfg::data_flow;
namespace scf = sdfg::structured_control_flow;
using types::PrimitiveType;
typedef ev::i128 i128;

struct Undefined : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Val {
    PrimitiveType t = PrimitiveType::Void;
    i128 i = 0; // integers and pointers
    double d = 0; // floating point (float values are exact in double)
    bool fp() const { return types::is_floating_point(t); }
};

inline size_t width(PrimitiveType t) { return t == PrimitiveType::Bool ? 1 : types::bit_width(t) / 8; }

inline Val wrap(PrimitiveType t, i128 v) {
    Val r;
    r.t = t;
    switch (t) {
        case PrimitiveType::Bool: r.i = v != 0; break;
        case PrimitiveType::Int8: r.i = (int8_t) v; break;
        case PrimitiveType::Int16: r.i = (int16_t) v; break;
        case PrimitiveType::Int32: r.i = (int32_t) v; break;
        case PrimitiveType::Int64: r.i = (int64_t) v; break;
        case PrimitiveType::UInt8: r.i = (uint8_t) v; break;
        case PrimitiveType::UInt16: r.i = (uint16_t) v; break;
        case PrimitiveType::UInt32: r.i = (uint32_t) v; break;
        case PrimitiveType::UInt64: r.i = (uint64_t) v; break;
        default: throw Unsupported("integer type");
    }
    return r;
}
inline Val fpv(PrimitiveType t, double d) {
    Val r;
    r.t = t;
    if (t == PrimitiveType::Float)
        r.d = (float) d;
    else if (t == PrimitiveType::Double)
        r.d = d;
    else
        throw Unsupported("floating-point type");
    return r;
}
// C conversion
inline Val convert(const Val& v, PrimitiveType t) {
    if (types::is_floating_point(t)) return fpv(t, v.fp() ? v.d : (double) v.i);
    if (!v.fp()) return wrap(t, v.i);
    if (t == PrimitiveType::Bool) return wrap(t, v.d != 0);
    if (!(v.d > -9.2e18 && v.d < 1.8e19)) throw Undefined("conversion of an unrepresentable value");
    i128 x = (i128) v.d;
    Val r = wrap(t, x);
    if (r.i != x) throw Undefined("conversion of an unrepresentable value");
    return r;
}

struct Buf {
    uint64_t base = 0;
    std::string name;
    bool freed = false;
    std::vector<uint8_t> b, init;
};

// One interpretation of a memlet, for the monitors
struct Access {
    const df::Memlet* memlet = nullptr; // null for symbols
    const Element* element; // access node, or the element that holds the expression
    const std::string* container;
    bool write = false;
    uint64_t addr = 0;
    size_t size = 0;
    const Buf* buf = nullptr;
    const std::vector<i128>* subset = nullptr;
    int role = 0; // of a loop: 1 init, 2 condition, 3 update
};

struct Machine {
    StructuredSDFG& fn;
    bool strict = true; // reads of memory nobody wrote are an error
    bool check_dims = true; // so are inner subscripts beyond their dimension
    uint64_t garbage = 1; // what such memory contains
    vh::Rng* shuffle = nullptr; // order of the iterations of maps
    const std::set<size_t>* enter = nullptr; // loops whose first iteration does not depend on their condition
    bool map_indvar_dead = true; // the variable of a map has no value after it
    uint64_t steps = 0, limit = 20000;
    std::function<void(const Access&)> on_access;
    std::function<void(const scf::ControlFlowNode&, int)> on_node; // 0 before, 1 after, 2 before an iteration of a loop
    std::function<void(const df::Tasklet&, const std::vector<Val>&, const Val&)> on_tasklet;

    std::vector<std::unique_ptr<Buf>> bufs;
    std::map<std::string, Buf*> storage; // per container
    std::map<std::string, Buf*> arg_buf; // what the pointer arguments point to
    bool returned = false;
    std::optional<Val> ret;

    explicit Machine(StructuredSDFG& f) : fn(f) {}

    Buf* new_buf(const std::string& name, size_t n) {
        if (n > (1u << 20)) throw Undefined("buffer too large");
        auto u = std::make_unique<Buf>();
        u->name = name;
        u->base = ((uint64_t) bufs.size() + 1) << 32;
        u->b.resize(n);
        u->init.assign(n, 0);
        uint64_t h = vh::mix(garbage + bufs.size());
        for (size_t i = 0; i < n; ++i) u->b[i] = (uint8_t) (h >> (8 * (i % 8))), h = i % 8 == 7 ? vh::mix(h) : h;
        bufs.push_back(std::move(u));
        return bufs.back().get();
    }
    Buf* find(uint64_t addr) {
        uint64_t id = addr >> 32;
        if (id == 0 || id > bufs.size()) throw Undefined(vh::fmt("access to address %llx", (unsigned long long) addr));
        return bufs[id - 1].get();
    }
    uint8_t* at(uint64_t addr, size_t n, bool write, Buf** out = nullptr) {
        Buf* b = find(addr);
        uint64_t o = addr - b->base;
        if (o > b->b.size() || n > b->b.size() - o)
            throw Undefined(vh::fmt("access beyond the end of %s (offset %lld, %zu of %zu bytes)", b->name.c_str(), (long long) o, n, b->b.size()));
        if (b->freed) throw Undefined("access to freed memory " + b->name);
        for (auto* m : maps_) note(*m, addr, n, write, b);
        if (write)
            std::fill_n(b->init.begin() + o, n, 1);
        else if (strict)
            for (size_t i = 0; i < n; ++i)
                if (!b->init[o + i]) throw Undefined("read of memory nobody wrote: " + b->name);
        if (out) *out = b;
        return b->b.data() + o;
    }
    // What the iterations of a running map did to each other. Iterations of a map may run in any order, so none may
    // read what another wrote or write what another read; a place several of them wrote different values to has no
    // value afterwards.
    struct Byte {
        int64_t writer = -1, reader = -1; // iterations; reader: of a read that found the value from before the map
        bool many_readers = false, differ = false, seen = false;
        uint8_t last = 0;
    };
    struct MapRun {
        int64_t iter = 0;
        std::unordered_map<uint64_t, Byte> bytes;
        std::vector<uint64_t> now; // written in this iteration
        const std::string* indvar = nullptr;
    };
    std::vector<MapRun*> maps_;
    bool race_check = true;
    bool racy = false;
    void note(MapRun& m, uint64_t addr, size_t n, bool write, Buf* b) {
        for (size_t k = 0; k < n; ++k) {
            auto& y = m.bytes[addr + k];
            if (write) {
                if (y.reader >= 0 && (y.many_readers || y.reader != m.iter)) race(b, "reads before another writes");
                if (y.writer != m.iter) {
                    y.writer = m.iter;
                    m.now.push_back(addr + k);
                }
            } else if (y.writer != m.iter) {
                if (y.writer >= 0) race(b, "reads what another wrote");
                if (y.reader >= 0 && y.reader != m.iter) y.many_readers = true;
                y.reader = m.iter;
            }
        }
    }
    void race(Buf* b, const char* what) {
        racy = true;
        throw Undefined(std::string("an iteration of a map ") + what + ": " + b->name);
    }
    void end_iteration(MapRun& m) {
        for (auto a : m.now) {
            auto& y = m.bytes[a];
            auto* b = find(a);
            uint8_t v = b->b[a - b->base];
            if (y.seen && y.last != v) y.differ = true;
            y.seen = true;
            y.last = v;
        }
        m.now.clear();
    }
    void forget(uint64_t addr, size_t n) {
        auto* b = find(addr);
        for (size_t k = 0; k < n; ++k) {
            b->init[addr - b->base + k] = 0;
            b->b[addr - b->base + k] = (uint8_t) vh::mix(garbage ^ (addr + k));
        }
    }
    Val load(uint64_t addr, PrimitiveType t) {
        size_t n = width(t);
        uint8_t* p = at(addr, n, false);
        if (t == PrimitiveType::Float) {
            float f;
            memcpy(&f, p, 4);
            return fpv(t, f);
        }
        if (t == PrimitiveType::Double) {
            double f;
            memcpy(&f, p, 8);
            return fpv(t, f);
        }
        if (types::is_floating_point(t)) throw Unsupported("floating-point type");
        uint64_t x = 0;
        memcpy(&x, p, n);
        return wrap(t, (i128) x);
    }
    void store(uint64_t addr, const Val& v) {
        size_t n = width(v.t);
        uint8_t* p = at(addr, n, true);
        if (v.t == PrimitiveType::Float) {
            float f = (float) v.d;
            memcpy(p, &f, 4);
        } else if (v.t == PrimitiveType::Double)
            memcpy(p, &v.d, 8);
        else {
            uint64_t x = (uint64_t) v.i;
            memcpy(p, &x, n);
        }
    }
    uint64_t load_ptr(uint64_t addr) {
        uint64_t x;
        memcpy(&x, at(addr, 8, false), 8);
        return x;
    }
    void store_ptr(uint64_t addr, uint64_t v) { memcpy(at(addr, 8, true), &v, 8); }

    // Types
    size_t align_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return width(t.primitive_type());
            case types::TypeID::Array: return align_of(static_cast<const types::Array&>(t).element_type());
            case types::TypeID::Pointer: return 8;
            case types::TypeID::Structure: {
                auto& d = fn.structure(static_cast<const types::Structure&>(t).name());
                size_t a = 1;
                if (!d.is_packed())
                    for (size_t i = 0; i < d.num_members(); ++i) a = std::max(a, align_of(d.member_type(symbolic::integer(i))));
                return a;
            }
            default: throw Unsupported("type");
        }
    }
    size_t size_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return width(t.primitive_type());
            case types::TypeID::Pointer: return 8;
            case types::TypeID::Array: {
                auto& a = static_cast<const types::Array&>(t);
                i128 n = integer(a.num_elements());
                if (n < 0 || n > 100000) throw Undefined("size of an array");
                return (size_t) n * size_of(a.element_type());
            }
            case types::TypeID::Structure: {
                auto& d = fn.structure(static_cast<const types::Structure&>(t).name());
                return member_offset(t, d.num_members());
            }
            default: throw Unsupported("type");
        }
    }
    size_t member_offset(const types::IType& t, size_t m) {
        auto& d = fn.structure(static_cast<const types::Structure&>(t).name());
        size_t o = 0;
        for (size_t i = 0; i < d.num_members(); ++i) {
            auto& mt = d.member_type(symbolic::integer(i));
            size_t a = d.is_packed() ? 1 : align_of(mt);
            o = (o + a - 1) / a * a;
            if (i == m) return o;
            o += size_of(mt);
        }
        size_t a = align_of(t);
        return (o + a - 1) / a * a;
    }

    // Symbolic expressions
    const Element* reader = nullptr;
    int role_ = 0;
    std::optional<i128> symbol_value(const std::string& name) {
        if (name == symbolic::__nullptr__()->get_name()) return 0;
        auto it = storage.find(name);
        if (it == storage.end()) throw Undefined("symbol without storage: " + name);
        auto& t = fn.type(name);
        if (fn.is_external(name)) return (i128) it->second->base;
        if (t.type_id() == types::TypeID::Scalar) {
            if (!types::is_integer(t.primitive_type())) throw Undefined("symbol of floating-point type " + name);
            Val v = load(it->second->base, t.primitive_type());
            report(nullptr, reader, name, false, it->second->base, width(t.primitive_type()), nullptr);
            return v.i;
        }
        if (t.type_id() == types::TypeID::Pointer) {
            auto v = (i128) load_ptr(it->second->base);
            report(nullptr, reader, name, false, it->second->base, 8, nullptr);
            return v;
        }
        throw Unsupported("symbol type");
    }
    ev::V value(const symbolic::Expression& e) {
        ev::overflow = false;
        auto v = ev::eval(
            *e, [this](const std::string& n) { return symbol_value(n); },
            [this](const std::string& n, const SymEngine::vec_basic& a) -> ev::V {
                if (n == "malloc_usable_size" && a.size() == 1) {
                    auto p = symbol_value(SymEngine::rcp_static_cast<const SymEngine::Symbol>(a[0])->get_name());
                    return ev::Q{(i128) find((uint64_t) *p)->b.size(), 1};
                }
                throw Unsupported("function " + n);
            });
        if (!v || ev::overflow) throw Undefined("expression without a value: " + e->__str__());
        return v;
    }
    i128 integer(const symbolic::Expression& e) {
        auto v = value(e);
        if (!v->integral()) throw Undefined("expression with a fractional value: " + e->__str__());
        if (v->n > LLONG_MAX || v->n < LLONG_MIN) throw Undefined("value beyond 64 bits");
        return v->n;
    }
    bool truth(const symbolic::Condition& c) { return value(c)->n != 0; }

    // Names outlive the accesses reported with them
    std::unordered_map<std::string, const std::string*> interned_;
    const std::string* intern(const std::string& c) {
        static std::unordered_set<std::string> names;
        auto& p = interned_[c];
        if (!p) p = &*names.insert(c).first;
        return p;
    }
    void report(const df::Memlet* m, const Element* e, const std::string& c, bool w, uint64_t addr, size_t n, const std::vector<i128>* sub) {
        if (!on_access) return;
        Access a;
        a.memlet = m, a.element = e, a.container = intern(c), a.write = w, a.addr = addr, a.size = n, a.subset = sub, a.role = role_;
        a.buf = find(addr);
        on_access(a);
    }

    // Memlets
    struct Loc {
        uint64_t addr;
        std::unique_ptr<types::IType> type;
        std::vector<i128> subset;
        uint64_t root; // the storage of the container, where a pointer was loaded
    };
    void descend(Loc& l, const types::IType& t0, const df::Subset& s, size_t pos) {
        const types::IType* t = &t0;
        for (; pos < s.size(); ++pos) {
            if (t->type_id() == types::TypeID::Array) {
                auto& a = static_cast<const types::Array&>(*t);
                i128 i = integer(s[pos]);
                if (check_dims && (i < 0 || i >= integer(a.num_elements()))) throw Undefined("subscript beyond its dimension");
                l.subset.push_back(i);
                l.addr += (uint64_t) ((int64_t) i * (int64_t) size_of(a.element_type()));
                t = &a.element_type();
            } else if (t->type_id() == types::TypeID::Structure) {
                auto m = integer(s[pos]);
                l.subset.push_back(m);
                l.addr += member_offset(*t, (size_t) m);
                t = &fn.structure(static_cast<const types::Structure&>(*t).name()).member_type(symbolic::integer((long) m));
            } else if (t->type_id() == types::TypeID::Scalar) {
                break; // as the code generator does
            } else
                throw Unsupported("subset");
        }
        l.type = t->clone();
    }
    uint64_t pointer_value(const std::string& c) {
        if (fn.is_external(c)) return storage.at(c)->base;
        if (fn.type(c).type_id() == types::TypeID::Array) return storage_of(c)->base; // decays
        return load_ptr(storage_of(c)->base);
    }
    Buf* storage_of(const std::string& c) {
        auto it = storage.find(c);
        if (it == storage.end()) throw Undefined("container without storage: " + c);
        return it->second;
    }
    // the place a memlet names in a container
    Loc locate(const df::Memlet& m, const df::AccessNode& node) {
        auto& c = node.data();
        auto& bt = m.base_type();
        auto& s = m.subset();
        Loc l;
        reader = &m;
        if (bt.type_id() == types::TypeID::Pointer && !s.empty()) {
            auto& p = static_cast<const types::Pointer&>(bt);
            l.addr = dynamic_cast<const df::ConstantNode*>(&node) ? constant_pointer(node) : pointer_value(c);
            i128 i = integer(s[0]);
            if (check_dims && i < 0 && m.type() != df::MemletType::Reference) throw Undefined("negative subscript");
            l.subset.push_back(i);
            l.addr += (uint64_t) ((int64_t) i * (int64_t) size_of(p.pointee_type()));
            descend(l, p.pointee_type(), s, 1);
        } else if (bt.type_id() == types::TypeID::Tensor) {
            auto& t = static_cast<const types::Tensor&>(bt);
            if (s.empty()) {
                l.addr = storage_of(c)->base;
                l.type = t.element_type().clone();
            } else {
                i128 o = integer(t.offset());
                for (size_t k = 0; k < t.shape().size() && k < s.size(); ++k) {
                    i128 i = integer(s[k]);
                    if (check_dims && (i < 0 || i >= integer(t.shape()[k]))) throw Undefined("subscript beyond its dimension");
                    l.subset.push_back(i);
                    o += i * integer(t.strides()[k]);
                }
                l.addr = pointer_value(c) + (uint64_t) ((int64_t) o * (int64_t) size_of(t.element_type()));
                l.type = t.element_type().clone();
            }
        } else {
            l.addr = storage_of(c)->base;
            descend(l, bt, s, 0);
        }
        return l;
    }
    uint64_t constant_pointer(const df::AccessNode& n) {
        if (symbolic::is_nullptr(symbolic::symbol(n.data()))) return 0;
        return std::stoull(n.data());
    }
    static Val constant(const df::ConstantNode& n) {
        auto t = n.type().primitive_type();
        std::string s = n.data();
        if (n.type().type_id() != types::TypeID::Scalar) throw Unsupported("constant of this type");
        if (types::is_floating_point(t)) {
            if (s == "INFINITY") return fpv(t, INFINITY);
            if (s == "-INFINITY") return fpv(t, -INFINITY);
            if (s == "NAN") return fpv(t, NAN);
            return fpv(t, strtod(s.c_str(), nullptr));
        }
        if (s == "true" || s == "false") return wrap(t, s == "true");
        if (s.find_first_of(".eEf") != std::string::npos && s.find("0x") == std::string::npos) return convert(fpv(PrimitiveType::Double, strtod(s.c_str(), nullptr)), t);
        i128 v = 0;
        size_t p = 0;
        bool neg = s[0] == '-';
        for (p = neg; p < s.size() && isdigit((unsigned char) s[p]); ++p) v = v * 10 + (s[p] - '0');
        return wrap(t, neg ? -v : v);
    }
    Val read(const df::Memlet& m, const df::AccessNode& n, PrimitiveType as) {
        if (auto c = dynamic_cast<const df::ConstantNode*>(&n)) return convert(constant(*c), as);
        Loc l = locate(m, n);
        if (l.type->type_id() != types::TypeID::Scalar) throw Unsupported("computational memlet of this type");
        auto t = l.type->primitive_type();
        Val v = load(l.addr, t);
        report(&m, &n, n.data(), false, l.addr, width(t), &l.subset);
        return convert(v, as);
    }

    Val compute(const df::Tasklet& k, const std::vector<Val>& in, PrimitiveType out) {
        using C = df::TaskletCode;
        auto c = k.code();
        auto truthv = [&](bool b) { return convert(wrap(PrimitiveType::Bool, b), out); };
        if (c == C::assign) return convert(in[0], out);
        if (df::is_floating_point(c)) {
            bool f32 = true;
            for (auto& v : in) {
                if (!v.fp()) throw Undefined("floating-point operation on integers");
                f32 = f32 && v.t == PrimitiveType::Float;
            }
            auto T = f32 ? PrimitiveType::Float : PrimitiveType::Double;
            double a = in[0].d, b = in.size() > 1 ? in[1].d : 0;
            bool nan = in.size() > 1 && (std::isnan(a) || std::isnan(b));
            switch (c) {
                case C::fp_neg: return convert(fpv(T, -a), out);
                case C::fp_add: return convert(fpv(T, a + b), out);
                case C::fp_sub: return convert(fpv(T, a - b), out);
                case C::fp_mul: return convert(fpv(T, a * b), out);
                case C::fp_div: return convert(fpv(T, a / b), out);
                case C::fp_rem: return convert(fpv(T, std::fmod(a, b)), out);
                case C::fp_fma: return convert(fpv(T, fpv(T, a * b).d + in[2].d), out);
                case C::fp_oeq: return truthv(!nan && a == b);
                case C::fp_one: return truthv(!nan && a != b);
                case C::fp_oge: return truthv(!nan && a >= b);
                case C::fp_ogt: return truthv(!nan && a > b);
                case C::fp_ole: return truthv(!nan && a <= b);
                case C::fp_olt: return truthv(!nan && a < b);
                case C::fp_ord: return truthv(!nan);
                case C::fp_ueq: return truthv(nan || a == b);
                case C::fp_une: return truthv(nan || a != b);
                case C::fp_ugt: return truthv(nan || a > b);
                case C::fp_uge: return truthv(nan || a >= b);
                case C::fp_ult: return truthv(nan || a < b);
                case C::fp_ule: return truthv(nan || a <= b);
                case C::fp_uno: return truthv(nan);
                default: throw Unsupported("tasklet");
            }
        }
        // integers: the operation happens in the type C gives it; signed overflow has no defined result
        PrimitiveType T = PrimitiveType::Int32;
        for (auto& v : in) {
            if (v.fp()) throw Undefined("integer operation on floating point");
            size_t w = std::max<size_t>(width(v.t), 4);
            bool u = types::is_unsigned(v.t) && width(v.t) >= 4;
            size_t W = width(T);
            bool U = types::is_unsigned(T);
            if (w > W)
                T = w == 8 ? (u ? PrimitiveType::UInt64 : PrimitiveType::Int64) : T;
            else if (w == W && u)
                T = types::as_unsigned(T);
            (void) U;
        }
        auto arith = [&](i128 r) {
            Val v = wrap(T, r);
            if (types::is_signed(T) && v.i != r) throw Undefined("signed overflow");
            return convert(v, out);
        };
        i128 a = wrap(T, in[0].i).i, b = in.size() > 1 ? wrap(T, in[1].i).i : 0;
        switch (c) {
            case C::int_add: return arith(a + b);
            case C::int_sub: return arith(a - b);
            case C::int_mul: return arith(a * b);
            case C::int_sdiv:
            case C::int_udiv:
                if (b == 0) throw Undefined("division by zero");
                return arith(a / b);
            case C::int_srem:
            case C::int_urem:
                if (b == 0) throw Undefined("division by zero");
                return arith(a % b);
            case C::int_and: return convert(wrap(T, a & b), out);
            case C::int_or: return convert(wrap(T, a | b), out);
            case C::int_xor: return convert(wrap(T, a ^ b), out);
            case C::int_shl:
            case C::int_ashr:
            case C::int_lshr: {
                auto P = std::max<size_t>(width(in[0].t), 4) * 8;
                i128 n = in[1].i;
                if (n < 0 || n >= (i128) P) throw Undefined("shift");
                auto L = P == 64 ? (types::is_unsigned(in[0].t) ? PrimitiveType::UInt64 : PrimitiveType::Int64)
                                 : (types::is_unsigned(in[0].t) && width(in[0].t) == 4 ? PrimitiveType::UInt32 : PrimitiveType::Int32);
                i128 x = wrap(L, in[0].i).i;
                if (c == C::int_shl) {
                    if (x < 0 || n > 62) throw Undefined("shift");
                    i128 r = x << (int) n;
                    Val v = wrap(L, r);
                    if (v.i != r) throw Undefined("shift");
                    return convert(v, out);
                }
                if (c == C::int_lshr && x < 0) throw Undefined("shift");
                return convert(wrap(L, x >> (int) n), out);
            }
            case C::int_smin:
            case C::int_umin: return convert(wrap(T, a < b ? a : b), out);
            case C::int_smax:
            case C::int_umax: return convert(wrap(T, a > b ? a : b), out);
            case C::int_scmp:
            case C::int_ucmp: return convert(wrap(PrimitiveType::Int32, a < b ? -1 : a > b), out);
            case C::int_eq: return truthv(a == b);
            case C::int_ne: return truthv(a != b);
            case C::int_sge:
            case C::int_uge: return truthv(a >= b);
            case C::int_sgt:
            case C::int_ugt: return truthv(a > b);
            case C::int_sle:
            case C::int_ule: return truthv(a <= b);
            case C::int_slt:
            case C::int_ult: return truthv(a < b);
            case C::int_abs: return arith(a < 0 ? -a : a);
            default: throw Unsupported("tasklet");
        }
    }

    void tasklet(const df::DataFlowGraph& g, const df::Tasklet& k) {
        bool u = df::is_unsigned(k.code());
        std::vector<Val> in;
        for (auto* e : g.in_edges_by_connector(k)) {
            if (!e) throw Undefined("unconnected input");
            auto& src = dynamic_cast<const df::AccessNode&>(e->src());
            auto ct = e->result_type(fn)->primitive_type();
            in.push_back(read(*e, src, u ? types::as_unsigned(ct) : ct));
        }
        for (auto* e : g.out_edges_by_connector(k)) {
            if (!e) throw Undefined("unconnected output");
            auto& dst = dynamic_cast<const df::AccessNode&>(e->dst());
            auto ct = e->result_type(fn)->primitive_type();
            Val v = compute(k, in, u ? types::as_unsigned(ct) : ct);
            Loc l = locate(*e, dst);
            if (l.type->type_id() != types::TypeID::Scalar) throw Unsupported("computational memlet of this type");
            v = convert(v, l.type->primitive_type());
            store(l.addr, v);
            report(e, &dst, dst.data(), true, l.addr, width(v.t), &l.subset);
            if (on_tasklet) on_tasklet(k, in, v);
        }
    }
    void reference(const df::Memlet& m) {
        auto& src = dynamic_cast<const df::AccessNode&>(m.src());
        auto& dst = dynamic_cast<const df::AccessNode&>(m.dst());
        uint64_t p;
        if (dynamic_cast<const df::ConstantNode*>(&src))
            p = constant_pointer(src);
        else if (m.base_type().type_id() == types::TypeID::Pointer && m.subset().empty())
            p = storage_of(src.data())->base;
        else
            p = locate(m, src).addr;
        auto b = storage_of(dst.data())->base;
        store_ptr(b, p);
        report(&m, &dst, dst.data(), true, b, 8, nullptr);
    }
    void deref(const df::Memlet& m, bool from_src) {
        auto& src = dynamic_cast<const df::AccessNode&>(m.src());
        auto& dst = dynamic_cast<const df::AccessNode&>(m.dst());
        auto& bt = static_cast<const types::Pointer&>(m.base_type());
        auto& pt = bt.pointee_type();
        size_t n = size_of(pt);
        uint64_t a, b; // from, to
        if (from_src) {
            a = dynamic_cast<const df::ConstantNode*>(&src) ? constant_pointer(src) : pointer_value(src.data());
            b = storage_of(dst.data())->base;
            auto& dt = fn.type(dst.data());
            n = size_of(dt);
            if (dt.type_id() == types::TypeID::Scalar && pt.type_id() == types::TypeID::Scalar) {
                Val v = convert(load(a, pt.primitive_type()), dt.primitive_type());
                report(&m, &src, src.data(), false, a, width(pt.primitive_type()), nullptr);
                store(b, v);
                report(&m, &dst, dst.data(), true, b, n, nullptr);
                return;
            }
        } else {
            b = pointer_value(dst.data());
            if (auto c = dynamic_cast<const df::ConstantNode*>(&src)) {
                if (pt.type_id() == types::TypeID::Scalar)
                    store(b, convert(constant(*c), pt.primitive_type()));
                else
                    store_ptr(b, constant_pointer(src));
                report(&m, &dst, dst.data(), true, b, n, nullptr);
                return;
            }
            a = storage_of(src.data())->base;
            auto& st = fn.type(src.data());
            if (st.type_id() == types::TypeID::Scalar && pt.type_id() == types::TypeID::Scalar) {
                store(b, convert(load(a, st.primitive_type()), pt.primitive_type()));
                report(&m, &src, src.data(), false, a, size_of(st), nullptr);
                report(&m, &dst, dst.data(), true, b, width(pt.primitive_type()), nullptr);
                return;
            }
            n = size_of(st);
        }
        auto* p = at(a, n, false);
        std::vector<uint8_t> tmp(p, p + n);
        report(&m, &src, src.data(), false, a, n, nullptr);
        memcpy(at(b, n, true), tmp.data(), n);
        report(&m, &dst, dst.data(), true, b, n, nullptr);
    }
    // value of a pointer input of a library node
    uint64_t lib_pointer(const df::Memlet& m, bool src_side) {
        auto& n = dynamic_cast<const df::AccessNode&>(src_side ? m.src() : m.dst());
        if (dynamic_cast<const df::ConstantNode*>(&n)) return constant_pointer(n);
        if (m.base_type().type_id() == types::TypeID::Pointer) {
            if (!m.subset().empty()) {
                Loc l = locate(m, n);
                return load_ptr(l.addr);
            }
            return pointer_value(n.data());
        }
        throw Unsupported("library memlet");
    }
    void library(const df::DataFlowGraph& g, const df::LibraryNode& k) {
        auto name = k.code().value();
        auto in = g.in_edges_by_connector(k);
        auto out = g.out_edges_by_connector(k);
        reader = &k;
        if (auto n = dynamic_cast<const stdlib::MallocNode*>(&k)) {
            i128 s = integer(n->size());
            if (s < 0) throw Undefined("malloc");
            auto& dst = dynamic_cast<const df::AccessNode&>(out.at(0)->dst());
            auto* b = new_buf("malloc", (size_t) s);
            store_ptr(storage_of(dst.data())->base, b->base);
            report(out[0], &dst, dst.data(), true, storage_of(dst.data())->base, 8, nullptr);
        } else if (auto n = dynamic_cast<const stdlib::MemsetNode*>(&k)) {
            i128 c = integer(n->value()), s = integer(n->num());
            if (s < 0) throw Undefined("memset");
            auto& dst = dynamic_cast<const df::AccessNode&>(out.at(0)->dst());
            uint64_t p = lib_pointer(*out[0], false);
            memset(at(p, (size_t) s, true), (int) c, (size_t) s);
            if (s) report(out[0], &dst, dst.data(), true, p, (size_t) s, nullptr);
        } else if (name == "Memcpy" || name == "Memmove") {
            auto* cp = dynamic_cast<const stdlib::MemcpyNode*>(&k);
            auto* mv = dynamic_cast<const stdlib::MemmoveNode*>(&k);
            i128 s = integer(cp ? cp->count() : mv->count());
            if (s < 0) throw Undefined("memcpy");
            uint64_t a = lib_pointer(*in.at(0), true), b = lib_pointer(*out.at(0), false);
            if (cp && s > 0 && a < b + (uint64_t) s && b < a + (uint64_t) s) throw Undefined("memcpy of overlapping ranges");
            auto* p = at(a, (size_t) s, false);
            std::vector<uint8_t> tmp(p, p + s);
            auto& src = dynamic_cast<const df::AccessNode&>(in[0]->src());
            auto& dst = dynamic_cast<const df::AccessNode&>(out[0]->dst());
            if (s) report(in[0], &src, src.data(), false, a, (size_t) s, nullptr);
            memcpy(at(b, (size_t) s, true), tmp.data(), (size_t) s);
            if (s) report(out[0], &dst, dst.data(), true, b, (size_t) s, nullptr);
        } else if (name == "Free") {
            uint64_t p = lib_pointer(*in.at(0), true);
            if (p) {
                auto* b = find(p);
                if (b->freed || b->base != p || b->name != "malloc") throw Undefined("free");
                b->freed = true;
            }
        } else
            throw Unsupported("library node " + name);
    }
    void block(scf::Block& b) {
        auto& g = const_cast<const df::DataFlowGraph&>(b.dataflow());
        for (auto* n : g.topological_sort()) {
            tick();
            if (auto t = dynamic_cast<const df::Tasklet*>(n))
                tasklet(g, *t);
            else if (auto l = dynamic_cast<const df::LibraryNode*>(n))
                library(g, *l);
            else
                for (auto& e : g.out_edges(*n)) {
                    if (e.type() == df::MemletType::Reference)
                        reference(e);
                    else if (e.type() == df::MemletType::Dereference_Src)
                        deref(e, true);
                    else if (e.type() == df::MemletType::Dereference_Dst)
                        deref(e, false);
                }
        }
    }

    // Control flow
    enum Flow { Next, Brk, Cont, Ret };
    void tick() {
        if (++steps > limit) throw Undefined("does not end");
    }
    void set_symbol(const Element* e, const std::string& name, i128 v) {
        auto& t = fn.type(name);
        if (t.type_id() != types::TypeID::Scalar || !types::is_integer(t.primitive_type())) throw Unsupported("assignment to this type");
        Val w = wrap(t.primitive_type(), v);
        if (w.i != v) throw Undefined("assigned value does not fit");
        auto* b = storage_of(name);
        store(b->base, w);
        report(nullptr, e, name, true, b->base, width(w.t), nullptr);
    }
    Flow sequence(scf::Sequence& s) {
        for (size_t i = 0; i < s.size(); ++i) {
            auto c = s.at(i);
            Flow f = node(c.first);
            if (f != Next) return f;
            for (auto& a : c.second.assignments()) {
                tick();
                reader = &c.second;
                set_symbol(&c.second, a.first->get_name(), integer(a.second));
            }
        }
        return Next;
    }
    Flow node(scf::ControlFlowNode& n) {
        tick();
        if (on_node) on_node(n, 0);
        Flow f = node_(n);
        if (on_node) on_node(n, 1);
        return f;
    }
    Flow node_(scf::ControlFlowNode& n) {
        if (auto b = dynamic_cast<scf::Block*>(&n)) {
            block(*b);
            return Next;
        }
        if (auto s = dynamic_cast<scf::Sequence*>(&n)) return sequence(*s);
        if (auto i = dynamic_cast<scf::IfElse*>(&n)) {
            for (size_t k = 0; k < i->size(); ++k) {
                reader = i;
                if (truth(i->at(k).second)) return sequence(i->at(k).first);
            }
            return Next;
        }
        if (auto w = dynamic_cast<scf::While*>(&n)) {
            while (true) {
                tick();
                if (on_node) on_node(n, 2);
                Flow f = sequence(w->root());
                if (f == Brk) return Next;
                if (f == Ret) return f;
            }
        }
        if (auto l = dynamic_cast<scf::StructuredLoop*>(&n)) {
            auto iv = l->indvar()->get_name();
            auto step = [&](bool first) {
                reader = l;
                role_ = first ? 1 : 3;
                set_symbol(l, iv, integer(first ? l->init() : l->update()));
                role_ = 0;
            };
            auto holds = [&] {
                reader = l;
                role_ = 2;
                bool t = truth(l->condition());
                role_ = 0;
                return t;
            };
            if (dynamic_cast<scf::Map*>(l) && race_check) {
                std::vector<i128> its;
                auto saved = on_access;
                on_access = nullptr;
                step(true);
                while (holds()) {
                    tick();
                    its.push_back(*symbol_value(iv));
                    step(false);
                }
                on_access = saved;
                i128 its0 = its.empty() ? 0 : its[0];
                if (shuffle) switch (shuffle->below(3)) {
                    case 0: std::reverse(its.begin(), its.end()); break;
                    case 1: shuffle->shuffle(its); break;
                    default: break;
                }
                MapRun mr;
                auto* ivb = storage_of(iv);
                size_t ivw = size_of(fn.type(iv));
                for (auto v : its) {
                    tick();
                    role_ = v == its0 ? 1 : 3;
                    set_symbol(l, iv, v);
                    role_ = 0;
                    maps_.push_back(&mr);
                    note(mr, ivb->base, ivw, true, ivb);
                    if (on_node) on_node(n, 2);
                    Flow f;
                    try {
                        f = sequence(l->root());
                    } catch (...) {
                        maps_.clear();
                        throw;
                    }
                    end_iteration(mr);
                    maps_.pop_back();
                    if (f == Ret) throw Undefined("return out of a map");
                    if (f == Brk) throw Undefined("break out of a map");
                    ++mr.iter;
                }
                for (auto& [a, y] : mr.bytes)
                    if (y.differ && !(a >= ivb->base && a < ivb->base + ivw)) forget(a, 1);
                if (map_indvar_dead)
                    forget(ivb->base, ivw);
                else {
                    on_access = nullptr; // the value a sequential loop would leave
                    step(true);
                    while (holds()) step(false);
                    on_access = saved;
                }
                return Next;
            }
            bool free = enter && enter->count(l->element_id());
            for (step(true); free || holds(); step(false)) {
                free = false;
                tick();
                if (on_node) on_node(n, 2);
                Flow f = sequence(l->root());
                if (f == Brk) break;
                if (f == Ret) return f;
            }
            return Next;
        }
        if (dynamic_cast<scf::Break*>(&n)) return Brk;
        if (dynamic_cast<scf::Continue*>(&n)) return Cont;
        if (auto r = dynamic_cast<scf::Return*>(&n)) {
            returned = true;
            reader = r;
            if (r->is_data() && !r->data().empty()) {
                auto& t = fn.type(r->data());
                if (t.type_id() != types::TypeID::Scalar) throw Unsupported("return of this type");
                auto* b = storage_of(r->data());
                ret = load(b->base, t.primitive_type());
                report(nullptr, r, r->data(), false, b->base, width(t.primitive_type()), nullptr);
            } else if (r->is_constant())
                ret = constant(r->data(), r->type());
            return Ret;
        }
        throw Unsupported("control flow node");
    }
    static Val constant(const std::string& s, const types::IType& ty) {
        auto t = ty.primitive_type();
        if (types::is_floating_point(t)) return fpv(t, strtod(s.c_str(), nullptr));
        return wrap(t, strtoll(s.c_str(), nullptr, 10));
    }

    // Arguments: scalars by value, pointers to a buffer each
    struct Arg {
        Val v;
        bool pointer = false;
        std::vector<uint8_t> bytes;
    };
    void run(const std::map<std::string, Arg>& args) {
        // arguments first, in a fixed order, so that addresses do not depend on the program
        for (auto& [name, a] : args)
            if (a.pointer) {
                auto* b = new_buf("*" + name, a.bytes.size());
                b->b = a.bytes;
                std::fill(b->init.begin(), b->init.end(), 1);
                arg_buf[name] = b;
            }
        for (auto& name : fn.arguments()) {
            auto it = args.find(name);
            if (it == args.end()) throw Unsupported("argument " + name);
            auto* s = new_buf(name, size_of(fn.type(name)));
            storage[name] = s;
            if (it->second.pointer)
                store_ptr(s->base, arg_buf.at(name)->base);
            else
                store(s->base, it->second.v);
        }
        for (auto& name : fn.externals()) {
            auto it = args.find(name);
            if (it == args.end() || !it->second.pointer) throw Unsupported("external " + name);
            storage[name] = arg_buf.at(name);
        }
        std::set<std::string> names;
        for (auto& n : fn.containers()) names.insert(n);
        std::vector<std::string> managed;
        for (int pass = 0; pass < 2; ++pass)
            for (auto& n : names) {
                if (storage.count(n)) continue;
                auto& t = fn.type(n);
                if ((t.type_id() == types::TypeID::Array) != (pass == 1)) continue;
                storage[n] = new_buf(n, size_of(t));
                if (t.type_id() == types::TypeID::Pointer && t.storage_type().allocation() == types::StorageType::AllocationType::Managed)
                    managed.push_back(n);
            }
        for (auto& n : managed) {
            i128 s = integer(fn.type(n).storage_type().allocation_size());
            if (s < 0) throw Undefined("allocation size");
            store_ptr(storage[n]->base, new_buf("malloc", (size_t) s)->base);
        }
        sequence(fn.root());
    }
    // what a caller can see
    uint64_t leaks() const {
        uint64_t n = 0;
        for (auto& b : bufs) n += b->name == "malloc" && !b->freed;
        return n;
    }
};

inline std::string show(const Val& v) {
    if (v.fp()) return vh::fmt("%.17g", v.d);
    return ev::str(ev::Q{v.i, 1});
}
inline bool same(const Val& a, const Val& b) {
    if (a.t != b.t) return false;
    if (a.fp()) return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d));
    return a.i == b.i;
}
} // namespace ip
