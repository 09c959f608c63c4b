// Checked primitive functions (C10) and primitive comparisons (C11).
#ifndef VF_PRIM_HPP
#define VF_PRIM_HPP
#include "ops.hpp"
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
namespace mon {
// outcome of a checked_result
template<class R> void take(const sn::checked_result<R> & c, Outcome & o){
    if(c.exception()){ o.code = code_of(static_cast<sn::safe_numerics_error>(c)); o.v = -HUGE_; const char * m = c; o.msg = m ? m : ""; }
    else { o.code = 0; o.v = (i128)static_cast<R>(c); }
}
template<class R> void prim(int op, R a, R b, Outcome & o){
    namespace ck = sn::checked;
    switch(op){
    case ADD: take(ck::add<R>(a, b), o); break;
    case SUB: take(ck::subtract<R>(a, b), o); break;
    case MUL: take(ck::multiply<R>(a, b), o); break;
    case DIV: take(ck::divide<R>(a, b), o); break;
    case MOD: take(ck::modulus<R>(a, b), o); break;
    case SHL: take(ck::left_shift<R>(a, b), o); break;
    case SHR: take(ck::right_shift<R>(a, b), o); break;
    case AND: take(ck::bitwise_and<R>(a, b), o); break;
    case OR: take(ck::bitwise_or<R>(a, b), o); break;
    case XOR: take(ck::bitwise_xor<R>(a, b), o); break;
    case NEG: take(ck::minus<R>(a), o); break;
    case NOT: take(ck::bitwise_not<R>(a), o); break;
    }
}
template<class R> void judge_prim(const char * id, int op, i128 a, i128 b){
    Outcome o; observe([&](Outcome & q){ prim<R>(op, (R)a, (R)b, q); }, o);
    static const TInfo t = tinfo<R>();
    Exact e = exact(op, a, b, t.bits, t.sgn);
    auto in = [&]{ return op == NEG || op == NOT ? std::string(opname(op)) + " " + str(a) : str(a) + " " + opname(op) + " " + str(b); };
    if(o.k != VALUE){ count(o, true); fail(id, "undefined-behaviour", in(), show(o)); return; }
    bool rep = e.st == 0 && e.v >= t.lo && e.v <= t.hi;
    int digits = t.bits - (t.sgn ? 1 : 0);
    bool must = rep && !(op == SHL && (a < 0 || (a == 0 && b >= digits))) && !(op == SHR && (a < 0 || b >= t.bits));
    Outcome c = o; if(o.code) c.k = ERROR; count(c, o.code || (o.v != a && o.v != b));
    auto d = [&]{ return (o.code ? std::string("error ") + codename(o.code) : "value " + str(o.v)) + ", exact " + (e.st ? "none" : str(e.v)); };
    if(!o.code){ if(e.st || o.v != e.v) fail(id, "wrong-value", in(), d()); return; }
    if(must){ fail(id, "spurious-error", in(), d()); return; }
    if(o.msg.empty()) fail(id, "error-without-message", in(), d());
    bool ok = false;
    if(op == SHL || op == SHR){
        if((o.code == NS || o.code == NVS) && (a < 0 || b < 0)) ok = true;
        if(o.code == STL && b > 0 && (b >= digits || e.v > t.hi || a < 0)) ok = true;
    }
    else if(e.st == 1) ok = o.code == DOM;
    else if(e.v > t.hi) ok = o.code == POS;
    else if(e.v < t.lo) ok = o.code == NEGO;
    if(!ok) fail(id, "wrong-error-code", in(), d());
    if(total.n % 300007 == 3) sample(std::string(id) + ": " + in() + " -> " + d());
}
template<class R> void prim_type(const char * name, int nrand){
    static const TInfo t = tinfo<R>();
    for(int op = ADD; op <= NOT; ++op){
        std::string id = std::string(name) + " " + opname(op); progress(id); Rng r(seed ^ hash_str(id.c_str()));
        bool un = op == NEG || op == NOT;
        std::vector<i128> A = values(t.lo, t.hi, r, nrand, un ? 70000 : 300), B = A;
        if(t.bits > 8 && (op == SHL || op == SHR)){ B.clear(); for(int k = -3; k <= t.bits + 3; ++k) add_clip(B, k, t.lo, t.hi); B.push_back(t.hi); B.push_back(t.lo); B.push_back(1000 > t.hi ? t.hi : 1000); uniq(B); }
        if(un) B.assign(1, 0);
        Site s; s.op = op; s.t = s.u = s.r = t;
        for(i128 a : A){
            std::vector<i128> V = B;
            if(!un && t.bits > 8){ directed(s, a, V); uniq(V); }
            for(i128 b : V) judge_prim<R>(id.c_str(), op, a, b);
            if(fails_in_site > 6) break;
        }
        // uniformly random pairs and random bit widths
        for(int i = 0; i < nrand * 400 && !un && t.bits > 8 && fails_in_site < 6; ++i){
            int x = 1 + (int)r.below(64), y = 1 + (int)r.below(64);
            i128 a = wrap((i128)(r.next() >> (64 - x)) * (r.below(2) ? 1 : -1), t.bits, t.sgn), b = wrap((i128)(r.next() >> (64 - y)) * (r.below(2) ? 1 : -1), t.bits, t.sgn);
            judge_prim<R>(id.c_str(), op, a, b);
        }
        ++feature[std::string("op:") + opname(op)];
    }
}
// comparisons of two values of one type by the checked functions
template<class R> void ask_checked(const R & x, const R & y, bool (& got)[5], bool & err){
    namespace ck = sn::checked;
    const sn::checked_result<bool> r[5] = { ck::less_than<R>(x, y), ck::less_than_equal<R>(x, y), ck::greater_than<R>(x, y), ck::greater_than_equal<R>(x, y), ck::equal<R>(x, y) };
    err = false;
    for(int w = 0; w < 5; ++w){ if(r[w].exception()) err = true; else got[w] = static_cast<bool>(r[w]); }
}
template<class R> void cmp_prim(const char * name, int nrand){
    std::string id = std::string(name) + " comparisons"; progress(id); Rng r(seed ^ hash_str(id.c_str()));
    static const TInfo t = tinfo<R>();
    std::vector<i128> A = values(t.lo, t.hi, r, nrand, 300);
    for(i128 a : A){
        std::vector<i128> V = A;
        for(int d = -1; d <= 1; ++d) add_clip(V, a + d, t.lo, t.hi);
        uniq(V);
        for(i128 b : V){
            bool got[5] = {}, tr[5] = { a < b, a <= b, a > b, a >= b, a == b }, err = false;
            Outcome o; observe([&](Outcome &){ ask_checked<R>((R)a, (R)b, got, err); }, o);
            for(int w = 0; w < 5; ++w){
                count(o, a != b);
                auto show_in = [&]{ return str(a) + " " + opname(LT + w) + " " + str(b); };
                if(o.k != VALUE){ fail(id, "undefined-behaviour", show_in(), show(o)); break; }
                if(err){ fail(id, "spurious-error", show_in(), "error"); break; }
                if(got[w] != tr[w]) fail(id, "wrong-verdict", show_in(), got[w] ? "got true" : "got false");
            }
            if(fails_in_site > 6) return;
        }
    }
    ++feature["op:compare"];
}
// A type of the user which is not an integer: the default primitives carry out the type's own operators. Every operator of Word
// gives a different mixture of its operands, so that another operator, or other operands, give another value.
struct Word {
    std::uint32_t w;
    constexpr Word() noexcept : w(0) {}
    constexpr explicit Word(std::uint32_t x) noexcept : w(x) {}
};
constexpr std::uint32_t mixture(std::uint32_t k, std::uint32_t a, std::uint32_t b){ return (a * 2654435761u + k) ^ ((b + 0x9e3779b9u * k) * 40503u) ^ (a >> 7); }
#define VF_W(K, OP) constexpr Word operator OP (const Word & a, const Word & b) noexcept { return Word(mixture(K, a.w, b.w)); }
VF_W(1, +) VF_W(2, -) VF_W(3, *) VF_W(4, /) VF_W(5, %) VF_W(6, <<) VF_W(7, >>) VF_W(8, |) VF_W(9, ^) VF_W(10, &)
#undef VF_W
constexpr Word operator-(const Word & a) noexcept { return Word(mixture(11, a.w, 1)); }
constexpr Word operator~(const Word & a) noexcept { return Word(mixture(12, a.w, 1)); }
constexpr bool operator<(const Word & a, const Word & b) noexcept { return a.w < b.w; }
constexpr bool operator>(const Word & a, const Word & b) noexcept { return a.w > b.w; }
constexpr bool operator==(const Word & a, const Word & b) noexcept { return a.w == b.w; }
inline std::uint64_t rend(const Word & x){ return x.w; }
inline std::uint64_t rend(double x){ std::uint64_t r = 0; if(x != x) return 0x7ff8; std::memcpy(&r, &x, sizeof x); return r; }
inline std::uint64_t rend(float x){ std::uint32_t r = 0; if(x != x) return 0x7ff8; std::memcpy(&r, &x, sizeof x); return r; }
template<class R> struct mkdef {                     // double, float
    static R of(i128 v, Rng & r){ R x = (R)(std::int64_t)v; switch(r.below(4)){ case 0: return x / 3; case 1: return x * (R)1e-20; case 2: return x * (R)1e19; default: return x; } }
    static void bits(const R &, const R &, std::uint64_t (&)[7], std::uint64_t (&)[7], bool &){}
    enum { n = 0 };
};
template<> struct mkdef<Word> {
    static Word of(i128 v, Rng &){ return Word((std::uint32_t)v); }
    enum { n = 7 };
    template<class C> static std::uint64_t val(const C & c, bool & err){ if(c.exception()){ err = true; return 0; } return rend(static_cast<Word>(c)); }
    static void bits(const Word & x, const Word & y, std::uint64_t (& got)[7], std::uint64_t (& want)[7], bool & err){
        namespace ck = sn::checked;
        got[0] = val(ck::modulus<Word>(x, y), err); want[0] = rend(x % y);
        got[1] = val(ck::left_shift<Word>(x, y), err); want[1] = rend(x << y);
        got[2] = val(ck::right_shift<Word>(x, y), err); want[2] = rend(x >> y);
        got[3] = val(ck::bitwise_or<Word>(x, y), err); want[3] = rend(x | y);
        got[4] = val(ck::bitwise_xor<Word>(x, y), err); want[4] = rend(x ^ y);
        got[5] = val(ck::bitwise_and<Word>(x, y), err); want[5] = rend(x & y);
        got[6] = val(ck::bitwise_not<Word>(x), err); want[6] = rend(~x);
    }
};
template<class R> void def_type(const char * name, int nrand){
    static const char * const nm[12] = { "unary -", "+", "-", "*", "/", "%", "<<", ">>", "|", "^", "&", "~" };
    std::string id = std::string(name) + " default"; progress(id); Rng r(seed ^ hash_str(id.c_str()));
    std::vector<i128> A = values(-(i128(1) << 31), (i128(1) << 32) - 1, r, nrand, 300);
    for(i128 a : A) for(i128 b : A){
        const R x = mkdef<R>::of(a, r), y = r.below(4) ? mkdef<R>::of(b, r) : x;
        if(mkdef<R>::n == 0 && rend(y) << 1 == 0) continue;              // division by zero is not asked for
        std::uint64_t got[12] = {}, want[12] = {}, g7[7] = {}, w7[7] = {}; bool c[5] = {}, err = false, cerr = false;
        Outcome o; observe([&](Outcome &){
            namespace ck = sn::checked;
            auto val = [&](const sn::checked_result<R> & q){ if(q.exception()){ err = true; return std::uint64_t(0); } return rend(static_cast<R>(q)); };
            got[0] = val(ck::minus<R>(x)); got[1] = val(ck::add<R>(x, y)); got[2] = val(ck::subtract<R>(x, y)); got[3] = val(ck::multiply<R>(x, y)); got[4] = val(ck::divide<R>(x, y));
            mkdef<R>::bits(x, y, g7, w7, err);
            ask_checked<R>(x, y, c, cerr);
        }, o);
        want[0] = rend(R(-x)); want[1] = rend(R(x + y)); want[2] = rend(R(x - y)); want[3] = rend(R(x * y)); want[4] = rend(R(x / y));
        for(int k = 0; k < 7; ++k){ got[5 + k] = g7[k]; want[5 + k] = w7[k]; }
        auto in = [&](const char * op){ return str((i128)rend(x)) + " " + op + " " + str((i128)rend(y)); };
        if(o.k != VALUE){ count(o, true); fail(id, "undefined-behaviour", in("?"), mon::show(o)); if(fails_in_site > 6) return; continue; }
        for(int k = 0; k < 5 + mkdef<R>::n; ++k){
            count(o, want[k] != rend(x) && want[k] != rend(y));
            if(err){ fail(id, "spurious-error", in(nm[k]), "error"); break; }
            if(got[k] != want[k]) fail(id, "wrong-value", in(nm[k]), "got " + str((i128)got[k]) + ", own operator " + str((i128)want[k]));
        }
        const bool tr[5] = { x < y, !(x > y), x > y, !(x < y), x == y };
        for(int w = 0; w < 5; ++w){
            count(o, rend(x) != rend(y));
            if(cerr){ fail(id, "spurious-error", in(opname(LT + w)), "error"); break; }
            if(c[w] != tr[w]) fail(id, "wrong-verdict", in(opname(LT + w)), c[w] ? "got true" : "got false");
        }
        if(fails_in_site > 6) return;
    }
    ++feature["op:default"];
}
template<class R, class T> void cast_pair(const char * rn, const char * tn, int nrand){
    std::string id = std::string("cast<") + rn + ">(" + tn + ")"; progress(id); Rng r(seed ^ hash_str(id.c_str()));
    TInfo s = tinfo<T>(), t = tinfo<R>();
    std::vector<i128> V = values(s.lo, s.hi, r, nrand * 20, 70000);
    for(i128 e : {t.lo, t.hi}) for(int d = -3; d <= 3; ++d) add_clip(V, e + d, s.lo, s.hi);
    for(int k : {8, 16, 32}) for(int m = -3; m <= 3; ++m) for(int d = -1; d <= 1; ++d) add_clip(V, m * ((i128)1 << k) + d, s.lo, s.hi);
    uniq(V);
    for(i128 v : V){
        Outcome o; observe([&](Outcome & q){ take(sn::checked::cast<R>((T)v), q); }, o);
        bool fits = v >= t.lo && v <= t.hi;
        Outcome c = o; if(o.k == VALUE && o.code) c.k = ERROR; count(c, v != 0);
        std::string d = o.k != VALUE ? show(o) : o.code ? std::string("error ") + codename(o.code) : "value " + str(o.v);
        if(o.k != VALUE) fail(id, "undefined-behaviour", str(v), d);
        else if(!o.code){ if(!fits || o.v != v) fail(id, "wrong-value", str(v), d); }
        else if(fits) fail(id, "spurious-error", str(v), d);
        else if(!(v > t.hi ? o.code == POS : t.sgn ? o.code == NEGO : o.code == DOM)) fail(id, "wrong-error-code", str(v), d);
    }
    ++feature["op:cast"];
}
template<class T, class U> void cmp_pair(const char * tn, const char * un, int nrand){
    std::string id = std::string(tn) + " ? " + un; progress(id); Rng r(seed ^ hash_str(id.c_str()));
    TInfo s = tinfo<T>(), t = tinfo<U>();
    auto one = [&](i128 a, i128 b){
        namespace sc = sn::safe_compare;
        bool got[6], tr[6] = { a < b, a <= b, a > b, a >= b, a == b, a != b };
        const T x = (T)a; const U y = (U)b;
        Outcome o; observe([&](Outcome &){ got[0] = sc::less_than(x, y); got[1] = sc::less_than_equal(x, y); got[2] = sc::greater_than(x, y); got[3] = sc::greater_than_equal(x, y); got[4] = sc::equal(x, y); got[5] = sc::not_equal(x, y); }, o);
        for(int w = 0; w < 6; ++w){
            count(o, a != b);
            if(o.k != VALUE){ fail(id, "undefined-behaviour", str(a) + " " + opname(LT + w) + " " + str(b), show(o)); break; }
            if(got[w] != tr[w]) fail(id, "wrong-verdict", str(a) + " " + opname(LT + w) + " " + str(b), got[w] ? "got true" : "got false");
        }
        ++feature[a < b ? "order:less" : a == b ? "order:equal" : "order:greater"];
    };
    std::vector<i128> A = values(s.lo, s.hi, r, nrand, 300), B = values(t.lo, t.hi, r, nrand, 300);
    for(i128 a : A){
        std::vector<i128> V = B;
        for(int d = -1; d <= 1; ++d){ add_clip(V, a + d, t.lo, t.hi); for(int k : {8, 16, 32, 64}){ add_clip(V, a + d + ((i128)1 << k), t.lo, t.hi); add_clip(V, a + d - ((i128)1 << k), t.lo, t.hi); } }
        uniq(V);
        for(i128 b : V) one(a, b);
        if(fails_in_site > 6) break;
    }
}
} // mon
#endif
