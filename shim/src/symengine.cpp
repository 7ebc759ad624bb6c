#include "symengine/symengine_shim.hpp"

#include <cctype>
#include <cstring>

namespace SymEngine {

// ---------------------------------------------------------------- hashing and order
static hash_t salt() {
    static const hash_t s = [] {
        const char* e = std::getenv("SYMSHIM_SALT");
        hash_t h = 0xcbf29ce484222325ull;
        for (; e && *e; ++e) h = (h ^ static_cast<unsigned char>(*e)) * 0x100000001b3ull;
        return h;
    }();
    return s;
}
static hash_t mix(hash_t h, hash_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
static hash_t hash_str(hash_t h, const std::string& s) {
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
    return mix(h, s.size());
}
hash_t Basic::hash() const {
    hash_t h = hash_.load(std::memory_order_relaxed);
    if (!h) {
        h = mix(__hash__(), salt());
        if (!h) h = 1;
        hash_.store(h, std::memory_order_relaxed);
    }
    return h;
}
int Basic::__cmp__(const Basic& o) const {
    if (this == &o) return 0;
    TypeID a = get_type_code(), b = o.get_type_code();
    if (a != b) return a < b ? -1 : 1;
    int c = compare(o);
    return c < 0 ? -1 : c > 0 ? 1 : 0;
}
std::string Basic::__str__() const {
    StrPrinter p;
    return p.apply(*this);
}
std::ostream& operator<<(std::ostream& o, const Basic& b) { return o << b.__str__(); }
RCP<const Basic> Basic::subs(const map_basic_basic& d) const { return SymEngine::subs(rcp_from_this(), d); }

static int cmp_vec(const vec_basic& a, const vec_basic& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = 0; i < a.size(); i++) {
        int c = a[i]->__cmp__(*b[i]);
        if (c) return c;
    }
    return 0;
}
static bool eq_vec(const vec_basic& a, const vec_basic& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (neq(*a[i], *b[i])) return false;
    return true;
}

// ---------------------------------------------------------------- constants
// Built on first use: other static objects may already need them.
const RCP<const Integer> zero = make_rcp<const Integer>(0);
const RCP<const Integer> one = make_rcp<const Integer>(1);
const RCP<const Integer> minus_one = make_rcp<const Integer>(-1);
const RCP<const Infty> Inf = make_rcp<const Infty>(1);
const RCP<const Infty> NegInf = make_rcp<const Infty>(-1);
const RCP<const Infty> ComplexInf = make_rcp<const Infty>(0);
const RCP<const NaN> Nan = make_rcp<const NaN>();
const RCP<const Constant> E = make_rcp<const Constant>("E");
const RCP<const Constant> pi = make_rcp<const Constant>("pi");
const RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true);
const RCP<const BooleanAtom> boolFalse = make_rcp<const BooleanAtom>(false);

RCP<const Integer> integer(const integer_class& i) { return make_rcp<const Integer>(i); }
static RCP<const Number> from_mpq(rational_class q) {
    q.canonicalize();
    if (q.get_den() == 1) return integer(integer_class(q.get_num()));
    return make_rcp<const Rational>(q);
}
RCP<const Number> rational(long n, long d) { return from_mpq(rational_class(integer_class(n), integer_class(d))); }
RCP<const RealDouble> real_double(double d) { return make_rcp<const RealDouble>(d); }
RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }
RCP<const Basic> function_symbol(const std::string& n, const vec_basic& a) {
    return make_rcp<const FunctionSymbol>(n, a);
}
RCP<const Basic> function_symbol(const std::string& n, const RCP<const Basic>& a) {
    return make_rcp<const FunctionSymbol>(n, vec_basic{a});
}
RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }
RCP<const Infty> infty(int d) { return d > 0 ? Inf : d < 0 ? NegInf : ComplexInf; }

// ---------------------------------------------------------------- numbers
long Integer::as_int() const {
    if (!i_.fits_slong_p()) throw SymEngineException("as_int: Integer larger than int");
    return i_.get_si();
}
unsigned long Integer::as_uint() const {
    if (!i_.fits_ulong_p()) throw SymEngineException("as_uint: Integer larger than uint");
    return i_.get_ui();
}
RCP<const Integer> Integer::neg() const { return integer(integer_class(-i_)); }
RCP<const Integer> Rational::get_num() const { return integer(integer_class(q_.get_num())); }
RCP<const Integer> Rational::get_den() const { return integer(integer_class(q_.get_den())); }

hash_t Integer::__hash__() const { return hash_str(SYMENGINE_INTEGER + 11, i_.get_str(36)); }
bool Integer::__eq__(const Basic& o) const { return is_a<Integer>(o) && i_ == static_cast<const Integer&>(o).i_; }
int Integer::compare(const Basic& o) const { return cmp(i_, static_cast<const Integer&>(o).i_); }
vec_basic Integer::get_args() const { return {}; }
hash_t Rational::__hash__() const { return hash_str(SYMENGINE_RATIONAL + 11, q_.get_str(36)); }
bool Rational::__eq__(const Basic& o) const { return is_a<Rational>(o) && q_ == static_cast<const Rational&>(o).q_; }
int Rational::compare(const Basic& o) const { return cmp(q_, static_cast<const Rational&>(o).q_); }
vec_basic Rational::get_args() const { return {}; }
hash_t RealDouble::__hash__() const { return mix(SYMENGINE_REAL_DOUBLE, std::hash<double>()(d_)); }
bool RealDouble::__eq__(const Basic& o) const {
    return is_a<RealDouble>(o) && d_ == static_cast<const RealDouble&>(o).d_;
}
int RealDouble::compare(const Basic& o) const {
    double e = static_cast<const RealDouble&>(o).d_;
    return d_ < e ? -1 : d_ > e ? 1 : 0;
}
vec_basic RealDouble::get_args() const { return {}; }
hash_t Infty::__hash__() const { return mix(SYMENGINE_INFTY, dir_ + 5); }
bool Infty::__eq__(const Basic& o) const { return is_a<Infty>(o) && dir_ == static_cast<const Infty&>(o).dir_; }
int Infty::compare(const Basic& o) const { return dir_ - static_cast<const Infty&>(o).dir_; }
vec_basic Infty::get_args() const { return {}; }
hash_t NaN::__hash__() const { return mix(SYMENGINE_NOT_A_NUMBER, 3); }
bool NaN::__eq__(const Basic& o) const { return is_a<NaN>(o); }
int NaN::compare(const Basic&) const { return 0; }
vec_basic NaN::get_args() const { return {}; }
hash_t Constant::__hash__() const { return hash_str(SYMENGINE_CONSTANT, name_); }
bool Constant::__eq__(const Basic& o) const {
    return is_a<Constant>(o) && name_ == static_cast<const Constant&>(o).name_;
}
int Constant::compare(const Basic& o) const { return name_.compare(static_cast<const Constant&>(o).name_); }
vec_basic Constant::get_args() const { return {}; }

static bool to_q(const Number& n, rational_class& q) {
    if (is_a<Integer>(n)) {
        q = rational_class(static_cast<const Integer&>(n).as_integer_class());
        return true;
    }
    if (is_a<Rational>(n)) {
        q = static_cast<const Rational&>(n).as_rational_class();
        return true;
    }
    return false;
}
static double to_d(const Number& n) {
    rational_class q;
    if (to_q(n, q)) return q.get_d();
    return static_cast<const RealDouble&>(n).as_double();
}
RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) && is_a<Infty>(*b)) {
        if (eq(*a, *b) && static_cast<const Infty&>(*a).dir()) return a;
        return Nan;
    }
    if (is_a<Infty>(*a)) return a;
    if (is_a<Infty>(*b)) return b;
    rational_class p, q;
    if (to_q(*a, p) && to_q(*b, q)) return from_mpq(p + q);
    return real_double(to_d(*a) + to_d(*b));
}
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (a->is_zero() || b->is_zero()) return Nan;
        auto s = [](const Number& n) { return n.is_positive() ? 1 : n.is_negative() ? -1 : 0; };
        return infty(s(*a) * s(*b));
    }
    rational_class p, q;
    if (to_q(*a, p) && to_q(*b, q)) return from_mpq(p * q);
    return real_double(to_d(*a) * to_d(*b));
}
static RCP<const Number> pownum(const RCP<const Number>& a, const RCP<const Integer>& n) {
    if (n->is_zero()) return one;
    if (is_a<NaN>(*a)) return Nan;
    if (is_a<Infty>(*a)) {
        if (n->is_negative()) return zero;
        int d = static_cast<const Infty&>(*a).dir();
        return infty(d < 0 && mpz_even_p(n->as_integer_class().get_mpz_t()) ? 1 : d);
    }
    if (is_a<RealDouble>(*a)) return real_double(std::pow(to_d(*a), n->as_integer_class().get_d()));
    rational_class q;
    to_q(*a, q);
    bool inv = n->is_negative();
    integer_class e = ::abs(n->as_integer_class());
    if (a->is_zero() && inv) return ComplexInf;
    if (a->is_one()) return one;
    if (a->is_minus_one()) return mpz_even_p(e.get_mpz_t()) ? one : minus_one;
    if (a->is_zero()) return zero;
    if (!e.fits_ulong_p() || e > 1000000) throw SymEngineException("pow: exponent too large");
    integer_class num, den;
    mpz_pow_ui(num.get_mpz_t(), q.get_num().get_mpz_t(), e.get_ui());
    mpz_pow_ui(den.get_mpz_t(), q.get_den().get_mpz_t(), e.get_ui());
    if (inv) std::swap(num, den);
    return from_mpq(rational_class(num, den));
}

// ---------------------------------------------------------------- symbols and functions
hash_t Symbol::__hash__() const { return hash_str(SYMENGINE_SYMBOL + 101, name_); }
bool Symbol::__eq__(const Basic& o) const {
    return get_type_code() == o.get_type_code() && name_ == static_cast<const Symbol&>(o).name_;
}
int Symbol::compare(const Basic& o) const { return name_.compare(static_cast<const Symbol&>(o).name_); }
vec_basic Symbol::get_args() const { return {}; }

hash_t OneArgFunction::__hash__() const { return mix(get_type_code() + 1000, arg_->hash()); }
bool OneArgFunction::__eq__(const Basic& o) const {
    return get_type_code() == o.get_type_code() && eq(*arg_, *static_cast<const OneArgFunction&>(o).arg_);
}
int OneArgFunction::compare(const Basic& o) const {
    return arg_->__cmp__(*static_cast<const OneArgFunction&>(o).arg_);
}
RCP<const Basic> Floor::create(const RCP<const Basic>& a) const { return floor(a); }
RCP<const Basic> Ceiling::create(const RCP<const Basic>& a) const { return ceiling(a); }
RCP<const Basic> Abs::create(const RCP<const Basic>& a) const { return abs(a); }

hash_t MultiArgFunction::__hash__() const {
    hash_t h = get_type_code() + 2000;
    for (auto& a : arg_) h = mix(h, a->hash());
    return h;
}
bool MultiArgFunction::__eq__(const Basic& o) const {
    return get_type_code() == o.get_type_code() && eq_vec(arg_, static_cast<const MultiArgFunction&>(o).arg_);
}
int MultiArgFunction::compare(const Basic& o) const {
    return cmp_vec(arg_, static_cast<const MultiArgFunction&>(o).arg_);
}
RCP<const Basic> Max::create(const vec_basic& a) const { return max(a); }
RCP<const Basic> Min::create(const vec_basic& a) const { return min(a); }
RCP<const Basic> FunctionSymbol::create(const vec_basic& a) const { return function_symbol(name_, a); }
hash_t FunctionSymbol::__hash__() const { return hash_str(MultiArgFunction::__hash__(), name_); }
bool FunctionSymbol::__eq__(const Basic& o) const {
    return is_a<FunctionSymbol>(o) && name_ == static_cast<const FunctionSymbol&>(o).name_ &&
           eq_vec(arg_, static_cast<const FunctionSymbol&>(o).arg_);
}
int FunctionSymbol::compare(const Basic& o) const {
    int c = name_.compare(static_cast<const FunctionSymbol&>(o).name_);
    return c ? c : MultiArgFunction::compare(o);
}

static RCP<const Basic> minmax(const vec_basic& in, bool mx) {
    bool set = false;
    RCP<const Number> best;
    set_basic rest;
    auto num = [&](const RCP<const Basic>& p) {
        auto n = rcp_static_cast<const Number>(p);
        if (!set) {
            best = n;
            set = true;
            return;
        }
        if (is_a<NaN>(*best)) return;
        if (is_a<NaN>(*n)) {
            best = n;
            return;
        }
        if (eq(*n, *best)) return;
        auto d = addnum(n, mulnum(minus_one, best));
        if (mx ? d->is_positive() : d->is_negative()) best = n;
    };
    for (auto& p : in) {
        if (is_a_Number(*p)) {
            num(p);
        } else if (mx ? is_a<Max>(*p) : is_a<Min>(*p)) {
            for (auto& l : p->get_args()) {
                if (is_a_Number(*l))
                    num(l);
                else
                    rest.insert(l);
            }
        } else {
            rest.insert(p);
        }
    }
    if (set) rest.insert(best);
    vec_basic v(rest.begin(), rest.end());
    if (v.empty()) throw SymEngineException("Empty vec_basic passed to max!");
    if (v.size() == 1) return v[0];
    if (mx) return make_rcp<const Max>(std::move(v));
    return make_rcp<const Min>(std::move(v));
}
RCP<const Basic> max(const vec_basic& v) { return minmax(v, true); }
RCP<const Basic> min(const vec_basic& v) { return minmax(v, false); }
RCP<const Basic> abs(const RCP<const Basic>& a) {
    if (is_a_Number(*a)) {
        auto n = rcp_static_cast<const Number>(a);
        return n->is_negative() ? RCP<const Basic>(mulnum(minus_one, n)) : a;
    }
    if (is_a<Abs>(*a)) return a;
    if (is_a<Mul>(*a) && static_cast<const Mul&>(*a).get_coef()->is_negative()) return abs(neg(a));
    return make_rcp<const Abs>(a);
}
static RCP<const Basic> round_to(const RCP<const Basic>& a, bool up) {
    if (is_a<Rational>(*a)) {
        auto q = static_cast<const Rational&>(*a).as_rational_class();
        integer_class r;
        if (up)
            mpz_cdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        else
            mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        return integer(r);
    }
    if (is_a<RealDouble>(*a)) {
        double d = static_cast<const RealDouble&>(*a).as_double();
        return integer(integer_class(up ? std::ceil(d) : std::floor(d)));
    }
    if (is_a_Number(*a) || is_a<Floor>(*a) || is_a<Ceiling>(*a)) return a;
    if (up) return make_rcp<const Ceiling>(a);
    return make_rcp<const Floor>(a);
}
RCP<const Basic> floor(const RCP<const Basic>& a) { return round_to(a, false); }
RCP<const Basic> ceiling(const RCP<const Basic>& a) { return round_to(a, true); }

// ---------------------------------------------------------------- Add
void Add::dict_add_term(umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t) {
    auto it = d.find(t);
    if (it == d.end()) {
        if (!c->is_zero()) d.insert({t, c});
        return;
    }
    it->second = addnum(it->second, c);
    if (it->second->is_zero()) d.erase(it);
}
void Add::coef_dict_add_term(
    RCP<const Number>& coef, umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t
) {
    if (c->is_zero()) return;
    if (is_a_Number(*t)) {
        coef = addnum(coef, mulnum(c, rcp_static_cast<const Number>(t)));
    } else if (is_a<Add>(*t) && c->is_one()) {
        auto& a = static_cast<const Add&>(*t);
        for (auto& p : a.get_dict()) dict_add_term(d, p.second, p.first);
        coef = addnum(coef, a.get_coef());
    } else if (is_a<Mul>(*t) && !static_cast<const Mul&>(*t).get_coef()->is_one()) {
        auto& m = static_cast<const Mul&>(*t);
        map_basic_basic md = m.get_dict();
        auto c2 = mulnum(c, m.get_coef());
        auto t2 = Mul::from_dict(one, std::move(md));
        coef_dict_add_term(coef, d, c2, t2);
    } else {
        dict_add_term(d, c, t);
    }
}
RCP<const Basic> Add::from_dict(const RCP<const Number>& coef0, umap_basic_num&& d) {
    RCP<const Number> coef = coef0;
    // no sum with coefficient one stays nested
    for (bool again = true; again;) {
        again = false;
        for (auto it = d.begin(); it != d.end(); ++it) {
            if (is_a<Add>(*it->first) && it->second->is_one()) {
                auto t = it->first;
                d.erase(it);
                coef_dict_add_term(coef, d, one, t);
                again = true;
                break;
            }
        }
    }
    if (d.empty()) return coef;
    if (d.size() == 1 && coef->is_zero()) {
        auto& p = *d.begin();
        if (p.second->is_one()) return p.first;
        return mul(p.second, p.first);
    }
    return make_rcp<const Add>(coef, std::move(d));
}
RCP<const Basic> add(const vec_basic& v) {
    RCP<const Number> coef = zero;
    umap_basic_num d;
    for (auto& t : v) Add::coef_dict_add_term(coef, d, one, t);
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(vec_basic{a, b}); }
RCP<const Basic> neg(const RCP<const Basic>& a) { return mul(minus_one, a); }
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(a, neg(b)); }
hash_t Add::__hash__() const {
    hash_t h = mix(SYMENGINE_ADD + 3000, coef_->hash());
    hash_t s = 0;
    for (auto& p : dict_) s += mix(p.first->hash(), p.second->hash());
    return mix(h, s);
}
bool Add::__eq__(const Basic& o) const {
    if (!is_a<Add>(o)) return false;
    auto& b = static_cast<const Add&>(o);
    if (dict_.size() != b.dict_.size() || neq(*coef_, *b.coef_)) return false;
    for (auto i = dict_.begin(), j = b.dict_.begin(); i != dict_.end(); ++i, ++j)
        if (neq(*i->first, *j->first) || neq(*i->second, *j->second)) return false;
    return true;
}
template<class D>
static vec_basic sorted_flat(const D& d) {
    std::vector<std::pair<RCP<const Basic>, RCP<const Basic>>> v;
    for (auto& p : d) v.push_back({p.first, RCP<const Basic>(p.second)});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first->__cmp__(*b.first) < 0; });
    vec_basic r;
    for (auto& p : v) {
        r.push_back(p.first);
        r.push_back(p.second);
    }
    return r;
}
int Add::compare(const Basic& o) const {
    auto& b = static_cast<const Add&>(o);
    if (dict_.size() != b.dict_.size()) return dict_.size() < b.dict_.size() ? -1 : 1;
    int c = coef_->__cmp__(*b.coef_);
    return c ? c : cmp_vec(sorted_flat(dict_), sorted_flat(b.dict_));
}
vec_basic Add::get_args() const {
    vec_basic r;
    if (!coef_->is_zero()) r.push_back(coef_);
    for (auto& p : dict_) {
        if (p.second->is_one())
            r.push_back(p.first);
        else
            r.push_back(mul(p.second, p.first));
    }
    return r;
}

// ---------------------------------------------------------------- Mul
static void mul_term(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& base);
static void mul_factor(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& f) {
    if (is_a_Number(*f)) {
        coef = mulnum(coef, rcp_static_cast<const Number>(f));
    } else if (is_a<Mul>(*f)) {
        auto& m = static_cast<const Mul&>(*f);
        coef = mulnum(coef, m.get_coef());
        for (auto& p : m.get_dict()) mul_term(coef, d, p.second, p.first);
    } else if (is_a<Pow>(*f)) {
        auto& p = static_cast<const Pow&>(*f);
        mul_term(coef, d, p.get_exp(), p.get_base());
    } else {
        mul_term(coef, d, one, f);
    }
}
static void
mul_term(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& base) {
    auto it = d.find(base);
    RCP<const Basic> e = exp;
    if (it != d.end()) {
        e = add(it->second, exp);
        d.erase(it);
    }
    if (is_a_Number(*e) && static_cast<const Number&>(*e).is_zero()) return;
    if (is_a<Integer>(*e) && (is_a_Number(*base) || is_a<Mul>(*base) || is_a<Pow>(*base))) {
        auto p = pow(base, e);
        if (is_a<Pow>(*p) && eq(*static_cast<const Pow&>(*p).get_base(), *base)) {
            d.insert({base, e});
            return;
        }
        mul_factor(coef, d, p);
        return;
    }
    d.insert({base, e});
}
RCP<const Basic> Mul::from_dict(const RCP<const Number>& coef, map_basic_basic&& d) {
    if (coef->is_zero() || d.empty()) return coef;
    if (d.size() == 1 && coef->is_one()) {
        auto& p = *d.begin();
        if (is_a<Integer>(*p.second) && static_cast<const Integer&>(*p.second).is_one()) return p.first;
        return make_rcp<const Pow>(p.first, p.second);
    }
    return make_rcp<const Mul>(coef, std::move(d));
}
RCP<const Basic> mul(const vec_basic& v) {
    RCP<const Number> coef = one;
    map_basic_basic d;
    for (auto& f : v) mul_factor(coef, d, f);
    return Mul::from_dict(coef, std::move(d));
}
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b) { return mul(vec_basic{a, b}); }
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && static_cast<const Number&>(*b).is_zero()) {
        if (is_a_Number(*a) && static_cast<const Number&>(*a).is_zero()) return Nan;
        return ComplexInf;
    }
    return mul(a, pow(b, minus_one));
}
hash_t Mul::__hash__() const {
    hash_t h = mix(SYMENGINE_MUL + 4000, coef_->hash());
    hash_t s = 0;
    for (auto& p : dict_) s += mix(p.first->hash(), p.second->hash());
    return mix(h, s);
}
bool Mul::__eq__(const Basic& o) const {
    if (!is_a<Mul>(o)) return false;
    auto& b = static_cast<const Mul&>(o);
    if (dict_.size() != b.dict_.size() || neq(*coef_, *b.coef_)) return false;
    for (auto i = dict_.begin(), j = b.dict_.begin(); i != dict_.end(); ++i, ++j)
        if (neq(*i->first, *j->first) || neq(*i->second, *j->second)) return false;
    return true;
}
int Mul::compare(const Basic& o) const {
    auto& b = static_cast<const Mul&>(o);
    if (dict_.size() != b.dict_.size()) return dict_.size() < b.dict_.size() ? -1 : 1;
    int c = coef_->__cmp__(*b.coef_);
    return c ? c : cmp_vec(sorted_flat(dict_), sorted_flat(b.dict_));
}
vec_basic Mul::get_args() const {
    vec_basic r;
    if (!coef_->is_one()) r.push_back(coef_);
    for (auto& p : dict_) {
        if (is_a<Integer>(*p.second) && static_cast<const Integer&>(*p.second).is_one())
            r.push_back(p.first);
        else
            r.push_back(make_rcp<const Pow>(p.first, p.second));
    }
    return r;
}

// ---------------------------------------------------------------- Pow
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && static_cast<const Number&>(*b).is_zero()) return one;
    if (is_a_Number(*b) && static_cast<const Number&>(*b).is_one()) return a;
    if (is_a_Number(*a) && static_cast<const Number&>(*a).is_one() && !is_a_Number(*b)) return one;
    if (is_a<Integer>(*b)) {
        auto n = rcp_static_cast<const Integer>(b);
        if (is_a_Number(*a)) return pownum(rcp_static_cast<const Number>(a), n);
        if (is_a<Pow>(*a)) {
            auto& p = static_cast<const Pow&>(*a);
            return pow(p.get_base(), mul(p.get_exp(), b));
        }
        if (is_a<Mul>(*a)) {
            auto& m = static_cast<const Mul&>(*a);
            RCP<const Number> coef = pownum(m.get_coef(), n);
            map_basic_basic d;
            for (auto& p : m.get_dict()) mul_term(coef, d, mul(p.second, b), p.first);
            return Mul::from_dict(coef, std::move(d));
        }
    }
    if (is_a<Rational>(*b) && is_a<Integer>(*a)) {
        auto q = static_cast<const Rational&>(*b).as_rational_class();
        integer_class r;
        if (q.get_den().fits_ulong_p() && (static_cast<const Integer&>(*a).as_integer_class() >= 0) &&
            mpz_root(r.get_mpz_t(), static_cast<const Integer&>(*a).as_integer_class().get_mpz_t(), q.get_den().get_ui()))
            return pow(integer(r), integer(integer_class(q.get_num())));
    }
    if (is_a<RealDouble>(*b) && is_a_Number(*a) && !is_a<Infty>(*a) && !is_a<NaN>(*a))
        return real_double(std::pow(to_d(static_cast<const Number&>(*a)), static_cast<const RealDouble&>(*b).as_double()));
    return make_rcp<const Pow>(a, b);
}
RCP<const Basic> sqrt(const RCP<const Basic>& a) { return pow(a, rational(1, 2)); }
hash_t Pow::__hash__() const { return mix(mix(SYMENGINE_POW + 5000, base_->hash()), exp_->hash()); }
bool Pow::__eq__(const Basic& o) const {
    if (!is_a<Pow>(o)) return false;
    auto& b = static_cast<const Pow&>(o);
    return eq(*base_, *b.base_) && eq(*exp_, *b.exp_);
}
int Pow::compare(const Basic& o) const {
    auto& b = static_cast<const Pow&>(o);
    int c = base_->__cmp__(*b.base_);
    return c ? c : exp_->__cmp__(*b.exp_);
}
vec_basic Pow::get_args() const { return {base_, exp_}; }

// ---------------------------------------------------------------- logic
RCP<const Boolean> Boolean::logical_not() const {
    return make_rcp<const Not>(rcp_static_cast<const Boolean>(rcp_from_this()));
}
hash_t BooleanAtom::__hash__() const { return mix(SYMENGINE_BOOLEAN_ATOM, b_); }
bool BooleanAtom::__eq__(const Basic& o) const {
    return is_a<BooleanAtom>(o) && b_ == static_cast<const BooleanAtom&>(o).b_;
}
int BooleanAtom::compare(const Basic& o) const { return int(b_) - int(static_cast<const BooleanAtom&>(o).b_); }
vec_basic BooleanAtom::get_args() const { return {}; }
RCP<const Boolean> BooleanAtom::logical_not() const { return boolean(!b_); }
hash_t Not::__hash__() const { return mix(SYMENGINE_NOT, arg_->hash()); }
bool Not::__eq__(const Basic& o) const { return is_a<Not>(o) && eq(*arg_, *static_cast<const Not&>(o).arg_); }
int Not::compare(const Basic& o) const { return arg_->__cmp__(*static_cast<const Not&>(o).arg_); }
vec_basic Not::get_args() const { return {arg_}; }
#define SYMSHIM_NARY(C, ID)                                                                        \
    hash_t C::__hash__() const {                                                                   \
        hash_t h = ID + 6000;                                                                      \
        for (auto& a : c_) h = mix(h, a->hash());                                                  \
        return h;                                                                                  \
    }                                                                                              \
    vec_basic C::get_args() const { return vec_basic(c_.begin(), c_.end()); }                      \
    bool C::__eq__(const Basic& o) const { return is_a<C>(o) && eq_vec(get_args(), o.get_args()); } \
    int C::compare(const Basic& o) const { return cmp_vec(get_args(), o.get_args()); }
SYMSHIM_NARY(And, SYMENGINE_AND)
SYMSHIM_NARY(Or, SYMENGINE_OR)
RCP<const Boolean> And::logical_not() const {
    set_boolean s;
    for (auto& a : c_) s.insert(a->logical_not());
    return logical_or(s);
}
RCP<const Boolean> Or::logical_not() const {
    set_boolean s;
    for (auto& a : c_) s.insert(a->logical_not());
    return logical_and(s);
}
template<class C>
static RCP<const Boolean> and_or(const set_boolean& s, bool absorb) {
    set_boolean args;
    for (auto& a : s) {
        if (is_a<BooleanAtom>(*a)) {
            if (static_cast<const BooleanAtom&>(*a).get_val() == absorb) return a;
            continue;
        }
        if (is_a<C>(*a))
            for (auto& e : static_cast<const C&>(*a).get_container()) args.insert(e);
        else
            args.insert(a);
    }
    for (auto& a : args)
        if (args.find(a->logical_not()) != args.end()) return boolean(absorb);
    if (args.size() == 1) return *args.begin();
    if (args.empty()) return boolean(!absorb);
    return make_rcp<const C>(args);
}
RCP<const Boolean> logical_and(const set_boolean& s) { return and_or<And>(s, false); }
RCP<const Boolean> logical_or(const set_boolean& s) { return and_or<Or>(s, true); }
RCP<const Boolean> logical_not(const RCP<const Boolean>& s) { return s->logical_not(); }

hash_t Relational::__hash__() const { return mix(mix(get_type_code() + 7000, a_->hash()), b_->hash()); }
bool Relational::__eq__(const Basic& o) const {
    if (get_type_code() != o.get_type_code()) return false;
    auto& r = static_cast<const Relational&>(o);
    return eq(*a_, *r.a_) && eq(*b_, *r.b_);
}
int Relational::compare(const Basic& o) const { return cmp_vec(get_args(), o.get_args()); }
RCP<const Basic> Equality::create(const RCP<const Basic>& a, const RCP<const Basic>& b) const { return Eq(a, b); }
RCP<const Basic> Unequality::create(const RCP<const Basic>& a, const RCP<const Basic>& b) const { return Ne(a, b); }
RCP<const Basic> LessThan::create(const RCP<const Basic>& a, const RCP<const Basic>& b) const { return Le(a, b); }
RCP<const Basic> StrictLessThan::create(const RCP<const Basic>& a, const RCP<const Basic>& b) const {
    return Lt(a, b);
}
RCP<const Boolean> Equality::logical_not() const { return Ne(a_, b_); }
RCP<const Boolean> Unequality::logical_not() const { return Eq(a_, b_); }
RCP<const Boolean> LessThan::logical_not() const { return Lt(b_, a_); }
RCP<const Boolean> StrictLessThan::logical_not() const { return Le(b_, a_); }

RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (eq(*a, *b)) return boolTrue;
    if ((is_a_Number(*a) && is_a_Number(*b)) || (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b))) {
        rational_class p, q;
        if (is_a_Number(*a) && !is_a<Infty>(*a) && !is_a<Infty>(*b))
            return boolean(
                to_d(static_cast<const Number&>(*a)) == to_d(static_cast<const Number&>(*b)) &&
                (is_a<RealDouble>(*a) || is_a<RealDouble>(*b))
            );
        return boolFalse;
    }
    if (a->__cmp__(*b) > 0) return make_rcp<const Equality>(b, a);
    return make_rcp<const Equality>(a, b);
}
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    auto e = Eq(a, b);
    if (is_a<BooleanAtom>(*e)) return e->logical_not();
    auto& r = static_cast<const Relational&>(*e);
    return make_rcp<const Unequality>(r.get_arg1(), r.get_arg2());
}
static int less(const RCP<const Basic>& a, const RCP<const Basic>& b, bool strict) {
    if (is_a<BooleanAtom>(*a) || is_a<BooleanAtom>(*b))
        throw SymEngineException("Invalid comparison of boolean objects.");
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return 0;
    if ((is_a<Infty>(*a) && static_cast<const Infty&>(*a).is_unsigned_infinity()) ||
        (is_a<Infty>(*b) && static_cast<const Infty&>(*b).is_unsigned_infinity()))
        throw SymEngineException("Invalid comparison of complex numbers.");
    if (eq(*a, *b)) return !strict;
    if (is_a_Number(*a) && is_a_Number(*b)) {
        auto d = addnum(rcp_static_cast<const Number>(a), mulnum(minus_one, rcp_static_cast<const Number>(b)));
        return d->is_negative();
    }
    return -1;
}
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    int r = less(a, b, false);
    if (r >= 0) return boolean(r);
    return make_rcp<const LessThan>(a, b);
}
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    int r = less(a, b, true);
    if (r >= 0) return boolean(r);
    return make_rcp<const StrictLessThan>(a, b);
}
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Le(b, a); }
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Lt(b, a); }

// ---------------------------------------------------------------- traversal
namespace shim {
static void walk_(const RCP<const Basic>& b, set_basic& seen, const std::function<void(const RCP<const Basic>&)>& f) {
    if (!seen.insert(b).second) return;
    f(b);
    if (is_a<MExprPoly>(*b)) return;
    for (auto& a : b->get_args()) walk_(a, seen, f);
}
void walk(const Basic& b, const std::function<void(const RCP<const Basic>&)>& f) {
    set_basic seen;
    walk_(b.rcp_from_this(), seen, f);
}
} // namespace shim
set_basic free_symbols(const Basic& b) {
    set_basic r;
    shim::walk(b, [&](const RCP<const Basic>& x) {
        if (is_a<Symbol>(*x) || is_a<Dummy>(*x)) r.insert(x);
    });
    return r;
}
bool has_symbol(const Basic& b, const Basic& s) {
    bool r = false;
    shim::walk(b, [&](const RCP<const Basic>& x) { r = r || eq(*x, s); });
    return r;
}

// rebuilds a node from transformed children
static RCP<const Basic> rebuild(const RCP<const Basic>& x, const std::function<RCP<const Basic>(const RCP<const Basic>&)>& f) {
    auto boolarg = [&](const RCP<const Boolean>& b) {
        auto r = f(b);
        if (!is_a_Boolean(*r)) throw SymEngineException("expected a boolean");
        return rcp_static_cast<const Boolean>(r);
    };
    switch (x->get_type_code()) {
        case SYMENGINE_POW: {
            auto& p = static_cast<const Pow&>(*x);
            auto b = f(p.get_base()), e = f(p.get_exp());
            if (b == p.get_base() && e == p.get_exp()) return x;
            return pow(b, e);
        }
        case SYMENGINE_FLOOR:
        case SYMENGINE_CEILING:
        case SYMENGINE_ABS: {
            auto& p = static_cast<const OneArgFunction&>(*x);
            auto a = f(p.get_arg());
            return a == p.get_arg() ? x : p.create(a);
        }
        case SYMENGINE_MAX:
        case SYMENGINE_MIN:
        case SYMENGINE_FUNCTIONSYMBOL: {
            auto& p = static_cast<const MultiArgFunction&>(*x);
            vec_basic v;
            bool same = true;
            for (auto& a : p.get_vec()) {
                v.push_back(f(a));
                same = same && v.back() == a;
            }
            return same ? x : p.create(v);
        }
        case SYMENGINE_NOT: return boolarg(static_cast<const Not&>(*x).get_arg())->logical_not();
        case SYMENGINE_AND: {
            set_boolean s;
            for (auto& a : static_cast<const And&>(*x).get_container()) s.insert(boolarg(a));
            return logical_and(s);
        }
        case SYMENGINE_OR: {
            set_boolean s;
            for (auto& a : static_cast<const Or&>(*x).get_container()) s.insert(boolarg(a));
            return logical_or(s);
        }
        case SYMENGINE_EQUALITY:
        case SYMENGINE_UNEQUALITY:
        case SYMENGINE_LESSTHAN:
        case SYMENGINE_STRICTLESSTHAN: {
            auto& r = static_cast<const Relational&>(*x);
            auto a = f(r.get_arg1()), b = f(r.get_arg2());
            if (a == r.get_arg1() && b == r.get_arg2()) return x;
            return r.create(a, b);
        }
        default: return x;
    }
}
static RCP<const Basic> subs_(const RCP<const Basic>& x, const map_basic_basic& d) {
    auto it = d.find(x);
    if (it != d.end()) return it->second;
    if (is_a<Add>(*x)) {
        auto& a = static_cast<const Add&>(*x);
        RCP<const Number> coef = zero;
        umap_basic_num r;
        auto ic = d.find(RCP<const Basic>(a.get_coef()));
        Add::coef_dict_add_term(coef, r, one, ic != d.end() && !a.get_coef()->is_zero() ? ic->second : RCP<const Basic>(a.get_coef()));
        for (auto& p : a.get_dict()) {
            auto whole = p.second->is_one() ? p.first : mul(p.second, p.first);
            auto iw = d.find(whole);
            if (iw != d.end())
                Add::coef_dict_add_term(coef, r, one, iw->second);
            else
                Add::coef_dict_add_term(coef, r, p.second, subs_(p.first, d));
        }
        return Add::from_dict(coef, std::move(r));
    }
    if (is_a<Mul>(*x)) {
        auto& m = static_cast<const Mul&>(*x);
        vec_basic v{m.get_coef()};
        for (auto& p : m.get_dict()) {
            bool unit = is_a<Integer>(*p.second) && static_cast<const Integer&>(*p.second).is_one();
            v.push_back(subs_(unit ? p.first : RCP<const Basic>(make_rcp<const Pow>(p.first, p.second)), d));
        }
        return mul(v);
    }
    return rebuild(x, [&](const RCP<const Basic>& y) { return subs_(y, d); });
}
RCP<const Basic> subs(const RCP<const Basic>& x, const map_basic_basic& d) { return subs_(x, d); }

RCP<const Basic> simplify(const RCP<const Basic>& x) {
    if (is_a<Add>(*x)) {
        vec_basic v;
        for (auto& a : x->get_args()) v.push_back(simplify(a));
        return add(v);
    }
    if (is_a<Mul>(*x)) {
        vec_basic v;
        for (auto& a : x->get_args()) v.push_back(simplify(a));
        return mul(v);
    }
    if (is_a_Boolean(*x)) return x;
    return rebuild(x, [](const RCP<const Basic>& y) { return simplify(y); });
}

static void expand_terms(const RCP<const Basic>& x, vec_basic& out) {
    if (is_a<Add>(*x)) {
        auto& a = static_cast<const Add&>(*x);
        if (!a.get_coef()->is_zero()) out.push_back(a.get_coef());
        for (auto& p : a.get_dict()) {
            vec_basic t;
            expand_terms(p.first, t);
            for (auto& y : t) out.push_back(mul(p.second, y));
        }
        return;
    }
    auto product = [](const vec_basic& a, const vec_basic& b) {
        vec_basic r;
        for (auto& p : a)
            for (auto& q : b) r.push_back(mul(p, q));
        auto s = add(r); // collects equal terms
        vec_basic c;
        if (is_a<Add>(*s))
            c = s->get_args();
        else
            c.push_back(s);
        return c;
    };
    if (is_a<Mul>(*x)) {
        auto& m = static_cast<const Mul&>(*x);
        vec_basic acc{m.get_coef()};
        for (auto& p : m.get_dict()) {
            vec_basic t;
            bool unit = is_a<Integer>(*p.second) && static_cast<const Integer&>(*p.second).is_one();
            expand_terms(unit ? p.first : pow(p.first, p.second), t);
            acc = product(acc, t);
        }
        out.insert(out.end(), acc.begin(), acc.end());
        return;
    }
    if (is_a<Pow>(*x)) {
        auto& p = static_cast<const Pow&>(*x);
        if (is_a<Integer>(*p.get_exp())) {
            auto n = rcp_static_cast<const Integer>(p.get_exp());
            auto base = expand(p.get_base());
            if (is_a<Add>(*base)) {
                bool inv = n->is_negative();
                unsigned long e = integer_class(::abs(n->as_integer_class())).get_ui();
                if (e <= 64) {
                    vec_basic acc{one}, t = base->get_args();
                    for (unsigned long i = 0; i < e; i++) acc = product(acc, t);
                    if (inv)
                        out.push_back(pow(add(acc), minus_one));
                    else
                        out.insert(out.end(), acc.begin(), acc.end());
                    return;
                }
            }
            if (!(base == p.get_base())) {
                out.push_back(pow(base, n));
                return;
            }
        }
    }
    out.push_back(x);
}
RCP<const Basic> expand(const RCP<const Basic>& x, bool) {
    if (!is_a<Add>(*x) && !is_a<Mul>(*x) && !is_a<Pow>(*x)) return x;
    vec_basic t;
    expand_terms(x, t);
    return add(t);
}

void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d) {
    if (is_a<Rational>(*x)) {
        *n = static_cast<const Rational&>(*x).get_num();
        *d = static_cast<const Rational&>(*x).get_den();
        return;
    }
    if (is_a<Mul>(*x)) {
        RCP<const Basic> num = one, den = one;
        for (auto& a : x->get_args()) {
            RCP<const Basic> an, ad;
            as_numer_denom(a, outArg(an), outArg(ad));
            num = mul(num, an);
            den = mul(den, ad);
        }
        *n = num;
        *d = den;
        return;
    }
    if (is_a<Add>(*x)) {
        RCP<const Basic> num = zero, den = one;
        for (auto& a : x->get_args()) {
            RCP<const Basic> an, ad;
            as_numer_denom(a, outArg(an), outArg(ad));
            if (eq(*ad, *den)) {
                num = add(num, an);
            } else {
                num = add(mul(num, ad), mul(an, den));
                den = mul(den, ad);
            }
        }
        *n = num;
        *d = den;
        return;
    }
    if (is_a<Pow>(*x)) {
        auto& p = static_cast<const Pow&>(*x);
        bool negative = (is_a_Number(*p.get_exp()) && static_cast<const Number&>(*p.get_exp()).is_negative()) ||
                        (is_a<Mul>(*p.get_exp()) && static_cast<const Mul&>(*p.get_exp()).get_coef()->is_negative());
        if (is_a<Integer>(*p.get_exp())) {
            RCP<const Basic> bn, bd;
            as_numer_denom(p.get_base(), outArg(bn), outArg(bd));
            auto e = negative ? neg(p.get_exp()) : p.get_exp();
            *n = pow(negative ? bd : bn, e);
            *d = pow(negative ? bn : bd, e);
            return;
        }
        if (negative) {
            *n = one;
            *d = pow(p.get_base(), neg(p.get_exp()));
            return;
        }
    }
    *n = x;
    *d = one;
}

// ---------------------------------------------------------------- polynomials
Expression::Expression() : b_(zero) {}
Expression::Expression(const std::string& s) : b_(parse(s)) {}
Expression& Expression::operator+=(const Expression& o) {
    b_ = add(b_, o.b_);
    return *this;
}
Expression& Expression::operator-=(const Expression& o) {
    b_ = sub(b_, o.b_);
    return *this;
}
Expression& Expression::operator*=(const Expression& o) {
    b_ = mul(b_, o.b_);
    return *this;
}
hash_t MExprPoly::__hash__() const {
    hash_t h = SYMENGINE_MEXPRPOLY, s = 0;
    for (auto& v : vars_) h = mix(h, v->hash());
    for (auto& p : poly_.dict_) s += mix(vec_int_hash()(p.first), p.second.get_basic()->hash());
    return mix(h, s);
}
bool MExprPoly::__eq__(const Basic& o) const {
    if (!is_a<MExprPoly>(o)) return false;
    auto& b = static_cast<const MExprPoly&>(o);
    if (poly_.dict_.size() != b.poly_.dict_.size()) return false;
    if (!eq_vec(get_args(), b.get_args())) return false;
    for (auto& p : poly_.dict_) {
        auto it = b.poly_.dict_.find(p.first);
        if (it == b.poly_.dict_.end() || it->second != p.second) return false;
    }
    return true;
}
int MExprPoly::compare(const Basic& o) const { return hash() < o.hash() ? -1 : hash() > o.hash(); }
vec_basic MExprPoly::get_args() const { return vec_basic(vars_.begin(), vars_.end()); }

namespace {
typedef MExprDict::dict_type PD;
void pd_add(PD& r, const vec_int& e, const Expression& c) {
    auto it = r.find(e);
    if (it == r.end()) {
        if (c != Expression(0)) r.emplace(e, c);
        return;
    }
    it->second += c;
    if (it->second == Expression(0)) r.erase(it);
}
PD pd_mul(const PD& a, const PD& b) {
    PD r;
    for (auto& p : a)
        for (auto& q : b) {
            vec_int e = p.first;
            for (size_t i = 0; i < e.size(); i++) e[i] += q.first[i];
            pd_add(r, e, p.second * q.second);
        }
    return r;
}
PD to_pd(const RCP<const Basic>& b, const set_basic& gens) {
    size_t n = gens.size();
    {
        size_t i = 0;
        for (auto& g : gens) {
            if (eq(*g, *b)) {
                vec_int e(n, 0);
                e[i] = 1;
                PD r;
                pd_add(r, e, Expression(1));
                return r;
            }
            i++;
        }
    }
    bool has = false;
    for (auto& g : gens) has = has || has_symbol(*b, *g);
    if (!has) {
        PD r;
        pd_add(r, vec_int(n, 0), Expression(b));
        return r;
    }
    if (is_a<Add>(*b)) {
        PD r;
        for (auto& a : b->get_args())
            for (auto& p : to_pd(a, gens)) pd_add(r, p.first, p.second);
        return r;
    }
    if (is_a<Mul>(*b)) {
        PD r;
        pd_add(r, vec_int(n, 0), Expression(1));
        for (auto& a : b->get_args()) r = pd_mul(r, to_pd(a, gens));
        return r;
    }
    if (is_a<Pow>(*b)) {
        auto& p = static_cast<const Pow&>(*b);
        if (is_a<Integer>(*p.get_exp()) && static_cast<const Integer&>(*p.get_exp()).is_positive()) {
            long e = static_cast<const Integer&>(*p.get_exp()).as_int();
            if (e > 1000) throw SymEngineException("Exponent too large");
            PD base = to_pd(p.get_base(), gens), r;
            pd_add(r, vec_int(n, 0), Expression(1));
            for (long i = 0; i < e; i++) r = pd_mul(r, base);
            return r;
        }
    }
    throw SymEngineException("Not a Polynomial");
}
} // namespace
template<>
RCP<const MExprPoly> from_basic<MExprPoly>(const RCP<const Basic>& b, const set_basic& gens) {
    MExprDict d;
    d.vec_size = gens.size();
    d.dict_ = to_pd(b, gens);
    return make_rcp<const MExprPoly>(gens, std::move(d));
}

// ---------------------------------------------------------------- printing
PrecedenceEnum precedence_of(const Basic& b) {
    switch (b.get_type_code()) {
        case SYMENGINE_ADD: return PrecedenceEnum::Add;
        case SYMENGINE_MUL: return PrecedenceEnum::Mul;
        case SYMENGINE_POW: return PrecedenceEnum::Pow;
        case SYMENGINE_EQUALITY:
        case SYMENGINE_UNEQUALITY:
        case SYMENGINE_LESSTHAN:
        case SYMENGINE_STRICTLESSTHAN: return PrecedenceEnum::Relational;
        case SYMENGINE_INTEGER:
            return static_cast<const Integer&>(b).is_negative() ? PrecedenceEnum::Mul : PrecedenceEnum::Atom;
        case SYMENGINE_RATIONAL: return PrecedenceEnum::Add;
        case SYMENGINE_REAL_DOUBLE:
            return static_cast<const RealDouble&>(b).is_negative() ? PrecedenceEnum::Mul : PrecedenceEnum::Atom;
        default: return PrecedenceEnum::Atom;
    }
}
std::string StrPrinter::apply(const RCP<const Basic>& b) {
    b->accept(*this);
    return str_;
}
std::string StrPrinter::apply(const Basic& b) {
    b.accept(*this);
    return str_;
}
std::string StrPrinter::apply(const vec_basic& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + apply(v[i]);
    return r;
}
std::string StrPrinter::parenthesizeLT(const RCP<const Basic>& x, PrecedenceEnum p) {
    return precedence_of(*x) < p ? parenthesize(apply(x)) : apply(x);
}
std::string StrPrinter::parenthesizeLE(const RCP<const Basic>& x, PrecedenceEnum p) {
    return precedence_of(*x) <= p ? parenthesize(apply(x)) : apply(x);
}
void StrPrinter::bvisit(const Basic&) { str_ = "<unprintable>"; }
void StrPrinter::bvisit(const Integer& x) { str_ = x.as_integer_class().get_str(); }
void StrPrinter::bvisit(const Rational& x) { str_ = x.as_rational_class().get_str(); }
void StrPrinter::bvisit(const RealDouble& x) {
    std::ostringstream s;
    s.precision(15);
    s << x.as_double();
    str_ = s.str();
    if (str_.find_first_of(".e") == std::string::npos) str_ += ".0";
}
void StrPrinter::bvisit(const Infty& x) { str_ = x.dir() > 0 ? "oo" : x.dir() < 0 ? "-oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Add& x) {
    std::ostringstream o;
    bool first = true;
    if (!x.get_coef()->is_zero()) {
        o << apply(x.get_coef());
        first = false;
    }
    std::vector<std::pair<RCP<const Basic>, RCP<const Number>>> v(x.get_dict().begin(), x.get_dict().end());
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first->__cmp__(*b.first) < 0; });
    for (auto& p : v) {
        std::string t;
        if (p.second->is_one())
            t = parenthesizeLT(p.first, PrecedenceEnum::Add);
        else if (p.second->is_minus_one())
            t = "-" + parenthesizeLT(p.first, PrecedenceEnum::Mul);
        else
            t = parenthesizeLT(p.second, PrecedenceEnum::Mul) + print_mul() + parenthesizeLT(p.first, PrecedenceEnum::Mul);
        if (first)
            o << t;
        else if (t[0] == '-')
            o << " - " << t.substr(1);
        else
            o << " + " << t;
        first = false;
    }
    str_ = o.str();
}
void StrPrinter::bvisit(const Mul& x) {
    std::ostringstream o, o2;
    bool num = false;
    unsigned den = 0;
    if (x.get_coef()->is_minus_one()) {
        o << "-";
    } else if (!x.get_coef()->is_one()) {
        o << parenthesizeLT(x.get_coef(), PrecedenceEnum::Mul) << print_mul();
        num = true;
    }
    for (auto& p : x.get_dict()) {
        bool negative = is_a_Number(*p.second) && static_cast<const Number&>(*p.second).is_negative();
        if (negative) {
            if (static_cast<const Number&>(*p.second).is_minus_one())
                o2 << parenthesizeLT(p.first, PrecedenceEnum::Pow);
            else
                _print_pow(o2, p.first, neg(p.second));
            o2 << print_mul();
            den++;
        } else {
            if (is_a<Integer>(*p.second) && static_cast<const Integer&>(*p.second).is_one())
                o << parenthesizeLT(p.first, PrecedenceEnum::Mul);
            else
                _print_pow(o, p.first, p.second);
            o << print_mul();
            num = true;
        }
    }
    if (!num) o << "1" << print_mul();
    std::string s = o.str();
    s = s.substr(0, s.size() - print_mul().size());
    if (den) {
        std::string s2 = o2.str();
        s2 = s2.substr(0, s2.size() - print_mul().size());
        str_ = den > 1 ? s + "/(" + s2 + ")" : s + "/" + s2;
    } else {
        str_ = s;
    }
}
void StrPrinter::bvisit(const Pow& x) {
    std::ostringstream o;
    _print_pow(o, x.get_base(), x.get_exp());
    str_ = o.str();
}
void StrPrinter::_print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (eq(*a, *E))
        o << "exp(" << apply(b) << ")";
    else if (eq(*b, *rational(1, 2)))
        o << "sqrt(" << apply(a) << ")";
    else
        o << parenthesizeLE(a, PrecedenceEnum::Pow) << "**" << parenthesizeLE(b, PrecedenceEnum::Pow);
}
void StrPrinter::bvisit(const OneArgFunction& x) {
    const char* n = is_a<Abs>(x) ? "abs" : is_a<Ceiling>(x) ? "ceiling" : "floor";
    str_ = std::string(n) + parenthesize(apply(x.get_arg()));
}
void StrPrinter::bvisit(const Max& x) { str_ = "max" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Min& x) { str_ = "min" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const Not& x) { str_ = "Not" + parenthesize(apply(x.get_arg())); }
void StrPrinter::bvisit(const And& x) { str_ = "And" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Or& x) { str_ = "Or" + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const Equality& x) {
    auto a = apply(x.get_arg1()), b = apply(x.get_arg2());
    str_ = a + " == " + b;
}
void StrPrinter::bvisit(const Unequality& x) {
    auto a = apply(x.get_arg1()), b = apply(x.get_arg2());
    str_ = a + " != " + b;
}
void StrPrinter::bvisit(const LessThan& x) {
    auto a = apply(x.get_arg1()), b = apply(x.get_arg2());
    str_ = a + " <= " + b;
}
void StrPrinter::bvisit(const StrictLessThan& x) {
    auto a = apply(x.get_arg1()), b = apply(x.get_arg2());
    str_ = a + " < " + b;
}
void CodePrinter::bvisit(const Rational& x) {
    str_ = x.as_rational_class().get_num().get_str() + ".0/" + x.as_rational_class().get_den().get_str() + ".0";
}
void CodePrinter::bvisit(const Ceiling& x) { str_ = "ceil(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Floor& x) { str_ = "floor(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Abs& x) { str_ = "fabs(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Max& x) { str_ = "fmax(" + apply(x.get_args()) + ")"; }
void CodePrinter::bvisit(const Min& x) { str_ = "fmin(" + apply(x.get_args()) + ")"; }
void CodePrinter::bvisit(const Constant& x) {
    str_ = eq(x, *E) ? "exp(1)" : eq(x, *pi) ? "acos(-1)" : x.get_name();
}
void CodePrinter::bvisit(const NaN&) { str_ = "NAN"; }

// ---------------------------------------------------------------- parsing
namespace {
struct Parser {
    const std::string& s;
    size_t i = 0;
    explicit Parser(const std::string& str) : s(str) {}
    [[noreturn]] void fail() { throw ParseError("Parsing Unsuccessful"); }
    void ws() {
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) i++;
    }
    bool peek(const char* t) {
        ws();
        return s.compare(i, std::strlen(t), t) == 0;
    }
    bool eat(const char* t) {
        if (!peek(t)) return false;
        i += std::strlen(t);
        return true;
    }
    RCP<const Boolean> as_bool(const RCP<const Basic>& b) {
        if (!is_a_Boolean(*b)) fail();
        return rcp_static_cast<const Boolean>(b);
    }
    RCP<const Basic> top() {
        auto r = or_();
        ws();
        if (i != s.size()) fail();
        return r;
    }
    RCP<const Basic> or_() {
        auto a = and_();
        while (eat("|")) a = logical_or({as_bool(a), as_bool(and_())});
        return a;
    }
    RCP<const Basic> and_() {
        auto a = eq_();
        while (eat("&")) a = logical_and({as_bool(a), as_bool(eq_())});
        return a;
    }
    RCP<const Basic> eq_() {
        auto a = cmp_();
        for (;;) {
            if (eat("=="))
                a = Eq(a, cmp_());
            else if (eat("!="))
                a = Ne(a, cmp_());
            else
                return a;
        }
    }
    RCP<const Basic> cmp_() {
        auto a = sum();
        for (;;) {
            if (eat("<="))
                a = Le(a, sum());
            else if (eat(">="))
                a = Ge(a, sum());
            else if (eat("<"))
                a = Lt(a, sum());
            else if (eat(">"))
                a = Gt(a, sum());
            else
                return a;
        }
    }
    RCP<const Basic> sum() {
        auto a = prod();
        for (;;) {
            if (eat("+"))
                a = add(a, prod());
            else if (eat("-"))
                a = sub(a, prod());
            else
                return a;
        }
    }
    RCP<const Basic> prod() {
        auto a = unary();
        for (;;) {
            ws();
            if (peek("**")) return a;
            if (eat("*"))
                a = mul(a, unary());
            else if (eat("/"))
                a = div(a, unary());
            else
                return a;
        }
    }
    RCP<const Basic> unary() {
        if (eat("-")) return neg(unary());
        if (eat("+")) return unary();
        return power();
    }
    RCP<const Basic> power() {
        auto a = atom();
        if (eat("**") || eat("^")) return pow(a, unary());
        return a;
    }
    RCP<const Basic> atom() {
        ws();
        if (i >= s.size()) fail();
        if (eat("~")) return as_bool(atom())->logical_not();
        if (eat("(")) {
            auto r = or_();
            if (!eat(")")) fail();
            return r;
        }
        unsigned char c = s[i];
        if (std::isdigit(c) || c == '.') {
            size_t b = i;
            bool fl = false;
            while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) i++;
            if (i < s.size() && s[i] == '.') {
                fl = true;
                i++;
                while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) i++;
            }
            if (i + 1 < s.size() && (s[i] == 'e' || s[i] == 'E') &&
                (std::isdigit(static_cast<unsigned char>(s[i + 1])) ||
                 (i + 2 < s.size() && (s[i + 1] == '-' || s[i + 1] == '+') &&
                  std::isdigit(static_cast<unsigned char>(s[i + 2]))))) {
                fl = true;
                i += 2;
                while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) i++;
            }
            std::string t = s.substr(b, i - b);
            if (t == ".") fail();
            if (fl) return real_double(std::strtod(t.c_str(), nullptr));
            auto n = integer(integer_class(t, 10));
            if (i < s.size() && (std::isalpha(static_cast<unsigned char>(s[i])) || s[i] == '_'))
                return mul(n, power()); // implicit multiplication
            return n;
        }
        if (std::isalpha(c) || c == '_' || c >= 0x80) {
            size_t b = i;
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_' || s[i] == '.' ||
                                    static_cast<unsigned char>(s[i]) >= 0x80))
                i++;
            std::string n = s.substr(b, i - b);
            if (!peek("(")) return name(n);
            eat("(");
            vec_basic a;
            if (!eat(")")) {
                do a.push_back(or_());
                while (eat(","));
                if (!eat(")")) fail();
            }
            return call(n, a);
        }
        fail();
    }
    const std::map<const std::string, const RCP<const Basic>>* constants = nullptr;
    RCP<const Basic> name(const std::string& n) {
        if (constants)
            if (auto i = constants->find(n); i != constants->end()) return i->second;
        if (n == "e" || n == "E") return E;
        if (n == "pi") return pi;
        if (n == "I" || n == "EulerGamma" || n == "Catalan" || n == "GoldenRatio") return make_rcp<const Constant>(n);
        if (n == "oo" || n == "inf") return Inf;
        if (n == "zoo") return ComplexInf;
        if (n == "nan") return Nan;
        if (n == "True") return boolTrue;
        if (n == "False") return boolFalse;
        return symbol(n);
    }
    RCP<const Basic> call(const std::string& n, const vec_basic& a) {
        if (n == "max") return max(a);
        if (n == "min") return min(a);
        if (n == "And" || n == "Or") {
            set_boolean s;
            for (auto& x : a) s.insert(as_bool(x));
            return n == "And" ? logical_and(s) : logical_or(s);
        }
        if (a.size() == 1) {
            if (n == "Not") return as_bool(a[0])->logical_not();
            if (n == "abs") return abs(a[0]);
            if (n == "floor") return floor(a[0]);
            if (n == "ceiling") return ceiling(a[0]);
            if (n == "sqrt") return sqrt(a[0]);
            if (n == "exp") return pow(E, a[0]);
        }
        if (a.size() == 2) {
            if (n == "pow") return pow(a[0], a[1]);
            if (n == "Eq") return Eq(a[0], a[1]);
            if (n == "Ne") return Ne(a[0], a[1]);
            if (n == "Lt") return Lt(a[0], a[1]);
            if (n == "Le") return Le(a[0], a[1]);
            if (n == "Gt") return Gt(a[0], a[1]);
            if (n == "Ge") return Ge(a[0], a[1]);
        }
        return function_symbol(n, a);
    }
};
} // namespace
RCP<const Basic> parse(const std::string& s, bool, const std::map<const std::string, const RCP<const Basic>>& constants) {
    Parser p(s);
    p.constants = &constants;
    return p.top();
}

} // namespace SymEngine
