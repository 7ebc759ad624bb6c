// A small stand-in for the parts of SymEngine that docc's sdfg and opt libraries use, so that
// the real docc sources can be compiled and run in a sandbox without SymEngine. It follows
// SymEngine's public API and its canonical forms; where SymEngine's behaviour is not
// observable through docc, the mathematically sound choice is taken.
// The iteration order of hashed containers depends on SYMSHIM_SALT, which stands for the
// platform dependence of SymEngine's hashes.
#pragma once

#include <gmpxx.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iosfwd>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <memory>
#include <atomic>
#include <cassert>
#include <algorithm>
#include <iostream>

namespace SymEngine {

typedef std::size_t hash_t;
typedef mpz_class integer_class;
typedef mpq_class rational_class;

class SymEngineException : public std::exception {
    std::string msg_;

public:
    explicit SymEngineException(const std::string& m) : msg_(m) {}
    const char* what() const noexcept override { return msg_.c_str(); }
};
class NotImplementedError : public SymEngineException {
    using SymEngineException::SymEngineException;
};
class DivisionByZeroError : public SymEngineException {
    using SymEngineException::SymEngineException;
};
class DomainError : public SymEngineException {
    using SymEngineException::SymEngineException;
};
class ParseError : public SymEngineException {
    using SymEngineException::SymEngineException;
};

enum ENull { null };

template<class T>
class RCP {
    T* p_ = nullptr;
    template<class U>
    friend class RCP;

public:
    RCP() {}
    RCP(ENull) {}
    explicit RCP(T* p) : p_(p) {
        if (p_) p_->refcount_++;
    }
    RCP(const RCP& o) : p_(o.p_) {
        if (p_) p_->refcount_++;
    }
    RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template<class U>
        requires std::is_convertible_v<U*, T*>
    RCP(const RCP<U>& o) : p_(o.get_ptr()) {
        if (p_) p_->refcount_++;
    }
    template<class U>
        requires std::is_convertible_v<U*, T*>
    RCP(RCP<U>&& o) noexcept : p_(o.p_) {
        o.p_ = nullptr;
    }
    ~RCP() { reset(); }
    RCP& operator=(const RCP& o) {
        T* n = o.p_;
        if (n) n->refcount_++;
        reset();
        p_ = n;
        return *this;
    }
    RCP& operator=(RCP&& o) noexcept {
        if (this != &o) {
            reset();
            p_ = o.p_;
            o.p_ = nullptr;
        }
        return *this;
    }
    void reset() {
        if (p_ && --(p_->refcount_) == 0) delete p_;
        p_ = nullptr;
    }
    bool is_null() const { return !p_; }
    T* get_ptr() const { return p_; }
    T* get() const { return p_; }
    T& operator*() const {
        check();
        return *p_;
    }
    T* operator->() const {
        check();
        return p_;
    }
    RCP<T> ptr() const { return *this; }
    template<class U>
    bool operator==(const RCP<U>& o) const {
        return static_cast<const void*>(p_) == static_cast<const void*>(o.get_ptr());
    }
    template<class U>
    bool operator!=(const RCP<U>& o) const {
        return !(*this == o);
    }
    bool operator==(ENull) const { return !p_; }
    bool operator!=(ENull) const { return p_; }

private:
    void check() const {
        if (!p_) {
            std::fprintf(stderr, "SYMSHIM: null expression dereferenced\n");
            std::abort();
        }
    }
};

template<class T>
class Ptr {
    T* p_;

public:
    explicit Ptr(T* p) : p_(p) {}
    T& operator*() const { return *p_; }
    T* operator->() const { return p_; }
};
template<class T>
Ptr<T> outArg(T& t) {
    return Ptr<T>(&t);
}

// The order is SymEngine's: it decides how the terms of a sum are printed.
enum TypeID {
    SYMENGINE_INTEGER,
    SYMENGINE_RATIONAL,
    SYMENGINE_REAL_DOUBLE,
    SYMENGINE_INFTY,
    SYMENGINE_NOT_A_NUMBER,
    SYMENGINE_NUMBER_WRAPPER,
    SYMENGINE_SYMBOL,
    SYMENGINE_DUMMY,
    SYMENGINE_MUL,
    SYMENGINE_ADD,
    SYMENGINE_POW,
    SYMENGINE_MEXPRPOLY,
    SYMENGINE_CONSTANT,
    SYMENGINE_FLOOR,
    SYMENGINE_CEILING,
    SYMENGINE_ABS,
    SYMENGINE_MAX,
    SYMENGINE_MIN,
    SYMENGINE_FUNCTIONSYMBOL,
    SYMENGINE_BOOLEAN_ATOM,
    SYMENGINE_NOT,
    SYMENGINE_AND,
    SYMENGINE_OR,
    SYMENGINE_EQUALITY,
    SYMENGINE_UNEQUALITY,
    SYMENGINE_LESSTHAN,
    SYMENGINE_STRICTLESSTHAN,
};

class Basic;
class Number;
class Integer;
class Rational;
class RealDouble;
class Infty;
class NaN;
class Constant;
class Symbol;
class Dummy;
class Add;
class Mul;
class Pow;
class Floor;
class Ceiling;
class Abs;
class Max;
class Min;
class FunctionSymbol;
class Boolean;
class BooleanAtom;
class Not;
class And;
class Or;
class Relational;
class Equality;
class Unequality;
class LessThan;
class StrictLessThan;
class MExprPoly;

#define SYMSHIM_CLASSES(X)                                                                                      \
    X(Integer) X(Rational) X(RealDouble) X(Infty) X(NaN) X(Constant) X(Symbol) X(Dummy) X(Add) X(Mul) X(Pow)     \
        X(Floor) X(Ceiling) X(Abs) X(Max) X(Min) X(FunctionSymbol) X(BooleanAtom) X(Not) X(And) X(Or) X(Equality) \
            X(Unequality) X(LessThan) X(StrictLessThan) X(MExprPoly)

class Visitor {
public:
    virtual ~Visitor() {}
#define X(C) virtual void visit(const C&) = 0;
    SYMSHIM_CLASSES(X)
#undef X
};

struct RCPBasicHash;
struct RCPBasicKeyEq;
struct RCPBasicKeyLess;

typedef std::vector<RCP<const Basic>> vec_basic;
typedef std::vector<int> vec_int;
typedef std::vector<unsigned> vec_uint;
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::vector<RCP<const Boolean>> vec_boolean;
typedef std::vector<RCP<const Symbol>> vec_sym;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> umap_basic_num;

class Basic {
    template<class U>
    friend class RCP;
    mutable std::atomic<unsigned> refcount_{0};
    mutable std::atomic<hash_t> hash_{0};

protected:
    Basic() {}

public:
    Basic(const Basic&) = delete;
    Basic& operator=(const Basic&) = delete;
    virtual ~Basic() {}
    virtual TypeID get_type_code() const = 0;
    virtual hash_t __hash__() const = 0;
    virtual bool __eq__(const Basic& o) const = 0;
    virtual int compare(const Basic& o) const = 0; // same type
    virtual vec_basic get_args() const = 0;
    virtual void accept(Visitor& v) const = 0;
    hash_t hash() const;
    int __cmp__(const Basic& o) const;
    std::string __str__() const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    template<class T>
    RCP<const T> rcp_from_this_cast() const {
        return RCP<const T>(static_cast<const T*>(this));
    }
    RCP<const Basic> subs(const map_basic_basic& d) const;
};

inline bool eq(const Basic& a, const Basic& b) { return &a == &b || a.__eq__(b); }
inline bool neq(const Basic& a, const Basic& b) { return !eq(a, b); }
std::ostream& operator<<(std::ostream& o, const Basic& b);
template<class T>
std::ostream& operator<<(std::ostream& o, const RCP<T>& p) {
    if (p.is_null()) return o << "null";
    return o << static_cast<const Basic&>(*p);
}

struct RCPBasicHash {
    template<class T>
    hash_t operator()(const RCP<T>& k) const {
        return k->hash();
    }
};
struct RCPBasicKeyEq {
    template<class T, class U>
    bool operator()(const RCP<T>& a, const RCP<U>& b) const {
        return eq(*a, *b);
    }
};
struct RCPBasicKeyLess {
    template<class T, class U>
    bool operator()(const RCP<T>& x, const RCP<U>& y) const {
        hash_t a = x->hash(), b = y->hash();
        if (a != b) return a < b;
        if (eq(*x, *y)) return false;
        return x->__cmp__(*y) < 0;
    }
};

template<class T>
bool is_a(const Basic& b) {
    return std::remove_const_t<T>::type_code_id == b.get_type_code();
}
template<class T>
bool is_a_sub(const Basic& b) {
    return dynamic_cast<const T*>(&b) != nullptr;
}
template<class T, class U>
RCP<T> rcp_static_cast(const RCP<U>& p) {
    return RCP<T>(static_cast<T*>(p.get_ptr()));
}
template<class T, class U>
RCP<T> rcp_dynamic_cast(const RCP<U>& p) {
    if (p.is_null()) return RCP<T>();
    T* t = dynamic_cast<T*>(p.get_ptr());
    if (!t) throw std::runtime_error("rcp_dynamic_cast: cannot convert.");
    return RCP<T>(t);
}
template<class T, class U>
T down_cast(U& u) {
    return static_cast<T>(u);
}
template<class T, class... A>
RCP<T> make_rcp(A&&... a) {
    return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...));
}

#define SYMSHIM_NODE(C, ID)                            \
    static constexpr TypeID type_code_id = ID;         \
    TypeID get_type_code() const override { return ID; } \
    hash_t __hash__() const override;                  \
    bool __eq__(const Basic& o) const override;        \
    int compare(const Basic& o) const override;        \
    vec_basic get_args() const override;               \
    void accept(Visitor& v) const override { v.visit(*this); }

// ---- numbers ----
class Number : public Basic {
public:
    virtual bool is_zero() const = 0;
    virtual bool is_one() const = 0;
    virtual bool is_minus_one() const = 0;
    virtual bool is_positive() const = 0;
    virtual bool is_negative() const = 0;
    virtual bool is_exact() const { return true; }
};

class Integer : public Number {
    integer_class i_;

public:
    SYMSHIM_NODE(Integer, SYMENGINE_INTEGER)
    explicit Integer(const integer_class& i) : i_(i) {}
    explicit Integer(int i) : i_(i) {}
    explicit Integer(long i) : i_(i) {}
    long as_int() const;
    unsigned long as_uint() const;
    const integer_class& as_integer_class() const { return i_; }
    bool is_zero() const override { return i_ == 0; }
    bool is_one() const override { return i_ == 1; }
    bool is_minus_one() const override { return i_ == -1; }
    bool is_positive() const override { return i_ > 0; }
    bool is_negative() const override { return i_ < 0; }
    RCP<const Integer> neg() const;
};
class Rational : public Number {
    rational_class q_;

public:
    SYMSHIM_NODE(Rational, SYMENGINE_RATIONAL)
    explicit Rational(const rational_class& q) : q_(q) {}
    const rational_class& as_rational_class() const { return q_; }
    RCP<const Integer> get_num() const;
    RCP<const Integer> get_den() const;
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_positive() const override { return q_ > 0; }
    bool is_negative() const override { return q_ < 0; }
};
class RealDouble : public Number {
    double d_;

public:
    SYMSHIM_NODE(RealDouble, SYMENGINE_REAL_DOUBLE)
    explicit RealDouble(double d) : d_(d) {}
    double as_double() const { return d_; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_positive() const override { return d_ > 0; }
    bool is_negative() const override { return d_ < 0; }
    bool is_exact() const override { return false; }
};
class Infty : public Number {
    int dir_; // 1, -1, or 0 (unsigned)

public:
    SYMSHIM_NODE(Infty, SYMENGINE_INFTY)
    explicit Infty(int d) : dir_(d) {}
    int dir() const { return dir_; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_positive() const override { return dir_ > 0; }
    bool is_negative() const override { return dir_ < 0; }
    bool is_positive_infinity() const { return dir_ > 0; }
    bool is_negative_infinity() const { return dir_ < 0; }
    bool is_unsigned_infinity() const { return dir_ == 0; }
    bool is_exact() const override { return false; }
};
class NaN : public Number {
public:
    SYMSHIM_NODE(NaN, SYMENGINE_NOT_A_NUMBER)
    NaN() {}
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_positive() const override { return false; }
    bool is_negative() const override { return false; }
    bool is_exact() const override { return false; }
};
class Constant : public Basic {
    std::string name_;

public:
    SYMSHIM_NODE(Constant, SYMENGINE_CONSTANT)
    explicit Constant(const std::string& n) : name_(n) {}
    const std::string& get_name() const { return name_; }
};

// ---- symbols ----
class Symbol : public Basic {
protected:
    std::string name_;

public:
    SYMSHIM_NODE(Symbol, SYMENGINE_SYMBOL)
    explicit Symbol(const std::string& n) : name_(n) {}
    const std::string& get_name() const { return name_; }
};
class Dummy : public Symbol {
public:
    static constexpr TypeID type_code_id = SYMENGINE_DUMMY;
    TypeID get_type_code() const override { return SYMENGINE_DUMMY; }
    void accept(Visitor& v) const override { v.visit(*this); }
    explicit Dummy(const std::string& n) : Symbol(n) {}
};

// ---- arithmetic ----
class Add : public Basic {
    RCP<const Number> coef_;
    umap_basic_num dict_;

public:
    SYMSHIM_NODE(Add, SYMENGINE_ADD)
    Add(const RCP<const Number>& c, umap_basic_num&& d) : coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const umap_basic_num& get_dict() const { return dict_; }
    static RCP<const Basic> from_dict(const RCP<const Number>& c, umap_basic_num&& d);
    static void dict_add_term(umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t);
    static void
    coef_dict_add_term(RCP<const Number>& coef, umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t);
};
class Mul : public Basic {
    RCP<const Number> coef_;
    map_basic_basic dict_;

public:
    SYMSHIM_NODE(Mul, SYMENGINE_MUL)
    Mul(const RCP<const Number>& c, map_basic_basic&& d) : coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const map_basic_basic& get_dict() const { return dict_; }
    static RCP<const Basic> from_dict(const RCP<const Number>& c, map_basic_basic&& d);
};
class Pow : public Basic {
    RCP<const Basic> base_, exp_;

public:
    SYMSHIM_NODE(Pow, SYMENGINE_POW)
    Pow(const RCP<const Basic>& b, const RCP<const Basic>& e) : base_(b), exp_(e) {}
    const RCP<const Basic>& get_base() const { return base_; }
    const RCP<const Basic>& get_exp() const { return exp_; }
};

// ---- functions ----
class Function : public Basic {};
class OneArgFunction : public Function {
protected:
    RCP<const Basic> arg_;

public:
    explicit OneArgFunction(const RCP<const Basic>& a) : arg_(a) {}
    const RCP<const Basic>& get_arg() const { return arg_; }
    virtual RCP<const Basic> create(const RCP<const Basic>& a) const = 0;
    vec_basic get_args() const override { return {arg_}; }
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
};
#define SYMSHIM_ONEARG(C, ID)                                                 \
    class C : public OneArgFunction {                                         \
    public:                                                                   \
        static constexpr TypeID type_code_id = ID;                            \
        TypeID get_type_code() const override { return ID; }                  \
        void accept(Visitor& v) const override { v.visit(*this); }            \
        using OneArgFunction::OneArgFunction;                                 \
        RCP<const Basic> create(const RCP<const Basic>& a) const override;    \
    };
SYMSHIM_ONEARG(Floor, SYMENGINE_FLOOR)
SYMSHIM_ONEARG(Ceiling, SYMENGINE_CEILING)
SYMSHIM_ONEARG(Abs, SYMENGINE_ABS)

class MultiArgFunction : public Function {
protected:
    vec_basic arg_;

public:
    explicit MultiArgFunction(const vec_basic& a) : arg_(a) {}
    vec_basic get_args() const override { return arg_; }
    const vec_basic& get_vec() const { return arg_; }
    virtual RCP<const Basic> create(const vec_basic& a) const = 0;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
};
class Max : public MultiArgFunction {
public:
    static constexpr TypeID type_code_id = SYMENGINE_MAX;
    TypeID get_type_code() const override { return SYMENGINE_MAX; }
    void accept(Visitor& v) const override { v.visit(*this); }
    explicit Max(const vec_basic&& a) : MultiArgFunction(a) {}
    RCP<const Basic> create(const vec_basic& a) const override;
};
class Min : public MultiArgFunction {
public:
    static constexpr TypeID type_code_id = SYMENGINE_MIN;
    TypeID get_type_code() const override { return SYMENGINE_MIN; }
    void accept(Visitor& v) const override { v.visit(*this); }
    explicit Min(const vec_basic&& a) : MultiArgFunction(a) {}
    RCP<const Basic> create(const vec_basic& a) const override;
};
class FunctionSymbol : public MultiArgFunction {
protected:
    std::string name_;

public:
    static constexpr TypeID type_code_id = SYMENGINE_FUNCTIONSYMBOL;
    TypeID get_type_code() const override { return SYMENGINE_FUNCTIONSYMBOL; }
    void accept(Visitor& v) const override { v.visit(*this); }
    FunctionSymbol(const std::string& n, const vec_basic& a) : MultiArgFunction(a), name_(n) {}
    FunctionSymbol(const std::string& n, const RCP<const Basic>& a) : MultiArgFunction(vec_basic{a}), name_(n) {}
    const std::string& get_name() const { return name_; }
    RCP<const Basic> create(const vec_basic& a) const override;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
};

// ---- logic ----
class Boolean : public Basic {
public:
    virtual RCP<const Boolean> logical_not() const;
};
class BooleanAtom : public Boolean {
    bool b_;

public:
    SYMSHIM_NODE(BooleanAtom, SYMENGINE_BOOLEAN_ATOM)
    explicit BooleanAtom(bool b) : b_(b) {}
    bool get_val() const { return b_; }
    RCP<const Boolean> logical_not() const override;
};
class Not : public Boolean {
    RCP<const Boolean> arg_;

public:
    SYMSHIM_NODE(Not, SYMENGINE_NOT)
    explicit Not(const RCP<const Boolean>& a) : arg_(a) {}
    RCP<const Boolean> get_arg() const { return arg_; }
    RCP<const Boolean> logical_not() const override { return arg_; }
};
class And : public Boolean {
    set_boolean c_;

public:
    SYMSHIM_NODE(And, SYMENGINE_AND)
    explicit And(const set_boolean& s) : c_(s) {}
    const set_boolean& get_container() const { return c_; }
    RCP<const Boolean> logical_not() const override;
};
class Or : public Boolean {
    set_boolean c_;

public:
    SYMSHIM_NODE(Or, SYMENGINE_OR)
    explicit Or(const set_boolean& s) : c_(s) {}
    const set_boolean& get_container() const { return c_; }
    RCP<const Boolean> logical_not() const override;
};
class Relational : public Boolean {
protected:
    RCP<const Basic> a_, b_;

public:
    Relational(const RCP<const Basic>& a, const RCP<const Basic>& b) : a_(a), b_(b) {}
    const RCP<const Basic>& get_arg1() const { return a_; }
    const RCP<const Basic>& get_arg2() const { return b_; }
    vec_basic get_args() const override { return {a_, b_}; }
    virtual RCP<const Basic> create(const RCP<const Basic>& a, const RCP<const Basic>& b) const = 0;
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
};
#define SYMSHIM_REL(C, ID)                                                                              \
    class C : public Relational {                                                                       \
    public:                                                                                             \
        static constexpr TypeID type_code_id = ID;                                                      \
        TypeID get_type_code() const override { return ID; }                                            \
        void accept(Visitor& v) const override { v.visit(*this); }                                      \
        using Relational::Relational;                                                                   \
        RCP<const Basic> create(const RCP<const Basic>& a, const RCP<const Basic>& b) const override;   \
        RCP<const Boolean> logical_not() const override;                                                \
    };
SYMSHIM_REL(Equality, SYMENGINE_EQUALITY)
SYMSHIM_REL(Unequality, SYMENGINE_UNEQUALITY)
SYMSHIM_REL(LessThan, SYMENGINE_LESSTHAN)
SYMSHIM_REL(StrictLessThan, SYMENGINE_STRICTLESSTHAN)

// ---- Expression and multivariate polynomials ----
class Expression {
    RCP<const Basic> b_;

public:
    Expression();
    Expression(const RCP<const Basic>& b) : b_(b) {}
    template<class T>
    Expression(const RCP<T>& b) : b_(b) {}
    template<class T>
        requires std::is_integral_v<T>
    Expression(T i);
    Expression(const std::string& s);
    const RCP<const Basic>& get_basic() const { return b_; }
    operator const RCP<const Basic>&() const { return b_; }
    Expression& operator+=(const Expression& o);
    Expression& operator-=(const Expression& o);
    Expression& operator*=(const Expression& o);
    bool operator==(const Expression& o) const { return eq(*b_, *o.b_); }
    bool operator!=(const Expression& o) const { return !(*this == o); }
    friend Expression operator+(Expression a, const Expression& b) { return a += b; }
    friend Expression operator-(Expression a, const Expression& b) { return a -= b; }
    friend Expression operator*(Expression a, const Expression& b) { return a *= b; }
    friend std::ostream& operator<<(std::ostream& o, const Expression& e) { return o << *e.b_; }
};
RCP<const Integer> integer(const integer_class& i);
template<class T>
    requires std::is_integral_v<T>
Expression::Expression(T i) : b_(integer(integer_class(static_cast<long>(i)))) {}
struct vec_int_hash {
    hash_t operator()(const vec_int& v) const {
        hash_t h = 1469598103934665603ull;
        for (int i : v) h = (h ^ static_cast<hash_t>(i + 77)) * 1099511628211ull;
        return h;
    }
};
class MExprDict {
public:
    typedef std::unordered_map<vec_int, Expression, vec_int_hash> dict_type;
    dict_type dict_;
    unsigned vec_size = 0;
    const dict_type& get_dict() const { return dict_; }
};
class MExprPoly : public Basic {
    MExprDict poly_;
    set_basic vars_;

public:
    SYMSHIM_NODE(MExprPoly, SYMENGINE_MEXPRPOLY)
    MExprPoly(const set_basic& vars, MExprDict&& d) : poly_(std::move(d)), vars_(vars) {}
    const MExprDict& get_poly() const { return poly_; }
    const set_basic& get_vars() const { return vars_; }
};
template<class P>
RCP<const P> from_basic(const RCP<const Basic>& b, const set_basic& gens);
template<>
RCP<const MExprPoly> from_basic<MExprPoly>(const RCP<const Basic>& b, const set_basic& gens);
template<class P, class S>
RCP<const P> from_basic(const RCP<const Basic>& b, const S& gens) {
    set_basic g(gens.begin(), gens.end());
    return from_basic<P>(b, g);
}

// ---- constants ----
extern const RCP<const Integer> zero, one, minus_one;
extern const RCP<const Infty> Inf, NegInf, ComplexInf;
extern const RCP<const NaN> Nan;
extern const RCP<const Constant> E, pi;
extern const RCP<const BooleanAtom> boolTrue, boolFalse;

// ---- constructors and operations ----
inline bool is_a_Number(const Basic& b) { return b.get_type_code() < SYMENGINE_NUMBER_WRAPPER; }
inline bool is_number(const Basic& b) { return is_a_Number(b); }
inline bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= SYMENGINE_BOOLEAN_ATOM; }
inline bool is_a_Relational(const Basic& b) { return b.get_type_code() >= SYMENGINE_EQUALITY; }

RCP<const Integer> integer(const integer_class& i);
template<class T>
    requires std::is_integral_v<T>
RCP<const Integer> integer(T i) {
    if constexpr (std::is_signed_v<T>)
        return integer(integer_class(static_cast<long>(i)));
    else
        return integer(integer_class(static_cast<unsigned long>(i)));
}
RCP<const Number> rational(long n, long d);
RCP<const RealDouble> real_double(double d);
RCP<const Symbol> symbol(const std::string& n);
RCP<const Basic> function_symbol(const std::string& n, const vec_basic& a);
RCP<const Basic> function_symbol(const std::string& n, const RCP<const Basic>& a);
RCP<const BooleanAtom> boolean(bool b);
RCP<const Infty> infty(int dir = 1);

RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b);

RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> add(const vec_basic& v);
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const vec_basic& v);
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> neg(const RCP<const Basic>& a);
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> sqrt(const RCP<const Basic>& a);
RCP<const Basic> expand(const RCP<const Basic>& a, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>& a);
RCP<const Basic> subs(const RCP<const Basic>& a, const map_basic_basic& d);
RCP<const Basic> max(const vec_basic& v);
RCP<const Basic> min(const vec_basic& v);
RCP<const Basic> abs(const RCP<const Basic>& a);
RCP<const Basic> floor(const RCP<const Basic>& a);
RCP<const Basic> ceiling(const RCP<const Basic>& a);
RCP<const Basic> parse(const std::string& s, bool convert_xor = true, const std::map<const std::string, const RCP<const Basic>>& constants = {});
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d);
double eval_double(const Basic& b);

RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> logical_and(const set_boolean& s);
RCP<const Boolean> logical_or(const set_boolean& s);
RCP<const Boolean> logical_not(const RCP<const Boolean>& s);

set_basic free_symbols(const Basic& b);
bool has_symbol(const Basic& b, const Basic& s);

namespace shim {
void walk(const Basic& b, const std::function<void(const RCP<const Basic>&)>& f);
}
template<class... T>
set_basic atoms(const Basic& b) {
    set_basic r;
    shim::walk(b, [&](const RCP<const Basic>& x) {
        if ((... || (dynamic_cast<const T*>(x.get_ptr()) != nullptr))) r.insert(x);
    });
    return r;
}

// ---- visitors and printers ----
template<class Derived, class Base = Visitor>
class BaseVisitor : public Base {
public:
    template<class... A>
    BaseVisitor(A&&... a) : Base(std::forward<A>(a)...) {}
#define X(C) \
    void visit(const C& x) override { static_cast<Derived*>(this)->bvisit(x); }
    SYMSHIM_CLASSES(X)
#undef X
};

enum class PrecedenceEnum { Relational, Add, Mul, Pow, Atom };
PrecedenceEnum precedence_of(const Basic& b);

class StrPrinter : public BaseVisitor<StrPrinter> {
protected:
    std::string str_;
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b);
    virtual std::string print_mul() { return "*"; }

public:
    void bvisit(const Basic& x);
    void bvisit(const Integer& x);
    void bvisit(const Rational& x);
    void bvisit(const RealDouble& x);
    void bvisit(const Infty& x);
    void bvisit(const NaN& x);
    void bvisit(const Constant& x);
    void bvisit(const Symbol& x);
    void bvisit(const Add& x);
    void bvisit(const Mul& x);
    void bvisit(const Pow& x);
    void bvisit(const OneArgFunction& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const FunctionSymbol& x);
    void bvisit(const BooleanAtom& x);
    void bvisit(const Not& x);
    void bvisit(const And& x);
    void bvisit(const Or& x);
    void bvisit(const Equality& x);
    void bvisit(const Unequality& x);
    void bvisit(const LessThan& x);
    void bvisit(const StrictLessThan& x);

    std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    std::string parenthesizeLT(const RCP<const Basic>& x, PrecedenceEnum p);
    std::string parenthesizeLE(const RCP<const Basic>& x, PrecedenceEnum p);
    std::string apply(const RCP<const Basic>& b);
    std::string apply(const Basic& b);
    std::string apply(const vec_basic& v);
    virtual ~StrPrinter() {}
};
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> {
public:
    using StrPrinter::apply;
    using StrPrinter::bvisit;
    using StrPrinter::str_;
    void bvisit(const Rational& x);
    void bvisit(const Ceiling& x);
    void bvisit(const Floor& x);
    void bvisit(const Abs& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const Constant& x);
    void bvisit(const NaN& x);
};

} // namespace SymEngine
