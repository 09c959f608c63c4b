// Binary/unary operator sites and their __int128 oracle (properties C01..C06, C17, C21).
#ifndef VF_OPS_HPP
#define VF_OPS_HPP
#include "mon.hpp"
namespace mon {
enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, NEG, NOT, LT, LE, GT, GE, EQ, NE };
inline const char * opname(int o){ static const char * n[] = {"+","-","*","/","%","<<",">>","&","|","^","neg","~","<","<=",">",">=","==","!="}; return n[o]; }
enum Pol { NATIVE, AUTOMATIC, CPP };

struct Exact { int st; i128 v; }; // st 0 defined, 1 zero divisor, 2 invalid shift count
inline i128 sat_mul(i128 a, i128 b){
    i128 r; if(__builtin_mul_overflow(a, b, &r) || r > HUGE_ || r < -HUGE_) return ((a < 0) != (b < 0)) ? -HUGE_ : HUGE_;
    return r;
}
inline i128 wrap(i128 x, int bits, bool sgn){
    u128 m = bits >= 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
    u128 y = (u128)x & m;
    if(sgn && (y >> (bits - 1))) return (i128)(y | ~m);
    return (i128)y;
}
inline i128 floor_shr(i128 a, i128 b){ int s = b > 126 ? 126 : (int)b; return a >> s; }
inline Exact exact(int op, i128 a, i128 b, int nbits, bool nsgn){
    Exact e; e.st = 0; e.v = 0;
    switch(op){
    case ADD: e.v = a + b; break;
    case SUB: e.v = a - b; break;
    case MUL: e.v = sat_mul(a, b); break;
    case DIV: if(b == 0) e.st = 1; else e.v = a / b; break;
    case MOD: if(b == 0) e.st = 1; else e.v = a % b; break;
    case SHL: if(b < 0) e.st = 2; else if(a == 0) e.v = 0; else if(b > 100) e.v = a < 0 ? -HUGE_ : HUGE_; else e.v = sat_mul(a, (i128)1 << (int)b); break;
    case SHR: if(b < 0) e.st = 2; else e.v = floor_shr(a, b); break;
    case AND: e.v = wrap(wrap(a, nbits, nsgn) & wrap(b, nbits, nsgn), nbits, nsgn); break;
    case OR:  e.v = wrap(wrap(a, nbits, nsgn) | wrap(b, nbits, nsgn), nbits, nsgn); break;
    case XOR: e.v = wrap(wrap(a, nbits, nsgn) ^ wrap(b, nbits, nsgn), nbits, nsgn); break;
    case NEG: e.v = -a; break;
    case NOT: e.v = wrap(~a, nbits, nsgn); break;
    case LT: e.v = a < b; break; case LE: e.v = a <= b; break; case GT: e.v = a > b; break;
    case GE: e.v = a >= b; break; case EQ: e.v = a == b; break; case NE: e.v = a != b; break;
    }
    return e;
}

// functors
struct FAdd { enum { op = ADD }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t + u; } };
struct FSub { enum { op = SUB }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t - u; } };
struct FMul { enum { op = MUL }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t * u; } };
struct FDiv { enum { op = DIV }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t / u; } };
struct FMod { enum { op = MOD }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t % u; } };
struct FShl { enum { op = SHL }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t << u; } };
struct FShr { enum { op = SHR }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t >> u; } };
struct FAnd { enum { op = AND }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t & u; } };
struct FOr  { enum { op = OR  }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t | u; } };
struct FXor { enum { op = XOR }; template<class T,class U> static constexpr auto f(const T & t,const U & u){ return t ^ u; } };
struct FNeg { enum { op = NEG }; template<class T,class U> static constexpr auto f(const T & t,const U &){ return -t; } };
struct FNot { enum { op = NOT }; template<class T,class U> static constexpr auto f(const T & t,const U &){ return ~t; } };
struct FLt { enum { op = LT }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t < u; } };
struct FLe { enum { op = LE }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t <= u; } };
struct FGt { enum { op = GT }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t > u; } };
struct FGe { enum { op = GE }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t >= u; } };
struct FEq { enum { op = EQ }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t == u; } };
struct FNe { enum { op = NE }; template<class T,class U> static constexpr bool f(const T & t,const U & u){ return t != u; } };

template<class F,class T,class U> void exec_site(i128 a, i128 b, Outcome & o){
    const T t = maker<T>::make(a); const U u = maker<U>::make(b);
    auto r = F::f(t, u);
    o.v = raw(r);
}

// built-in type of the operation on the base types
template<class F,class B,class C> struct builtin_result { using type = decltype(F::f(std::declval<B>(), std::declval<C>())); };

struct Site { const char * id; int op; int pol; TInfo t, u, r; int nbits; bool nsgn; bool same_builtin; exec2 f; };
inline std::vector<Site> & sites(){ static std::vector<Site> v; return v; }

template<class F,class T,class U> void add_site(const char * id, int pol){
    using R = decltype(F::f(std::declval<T>(), std::declval<U>()));
    using N = typename builtin_result<F, typename sn::base_type<T>::type, typename sn::base_type<U>::type>::type;
    Site s; s.id = id; s.op = F::op; s.pol = pol; s.t = tinfo<T>(); s.u = tinfo<U>(); s.r = tinfo<R>();
    s.nbits = (int)sizeof(N) * 8; s.nsgn = std::is_signed<N>::value;
    s.same_builtin = std::is_same<N, typename sn::base_type<R>::type>::value;
    s.f = &exec_site<F,T,U>;
    sites().push_back(s);
}

enum Judge { J_EXACT = 1, J_SPURIOUS = 2, J_TYPE = 4, J_RANGE = 8 };

inline bool is_shift(int op){ return op == SHL || op == SHR; }
inline bool is_bit(int op){ return op == AND || op == OR || op == XOR || op == NOT; }
inline bool is_cmp(int op){ return op >= LT; }
static const i128 I64LO = -((i128)1 << 63), I64HI = ((i128)1 << 63) - 1, U64HI = ((i128)1 << 64) - 1;

inline bool auto_signed(const Site & s){
    if(s.op == SUB || s.op == NEG) return true;
    if(is_shift(s.op)) return s.t.sgn;
    if(is_bit(s.op)) return s.nsgn;
    return s.t.sgn || s.u.sgn;
}
// is success required for these operands?
inline bool must_succeed(const Site & s, i128 a, i128 b, const Exact & e){
    if(e.st) return false;
    if(is_bit(s.op)) return true;
    i128 lo = s.r.blo, hi = s.r.bhi;
    if(s.pol == AUTOMATIC){ bool g = auto_signed(s); lo = g ? I64LO : 0; hi = g ? I64HI : U64HI; }
    auto rep = [&](i128 x){ return x >= lo && x <= hi; };
    if(!rep(a) || !rep(e.v)) return false;
    if(s.op == NEG) return true;
    if(!rep(b)) return false;
    int digits = s.r.bits - (s.r.sgn ? 1 : 0);
    if(s.op == SHL){ if(a < 0) return false; if(a == 0) return b < digits; return true; }
    if(s.op == SHR) return a >= 0 && b < s.r.bits;
    return true;
}
// is this error code a correct description of the cause?
inline bool code_ok(const Site & s, i128 a, i128 b, const Exact & e, int code){
    i128 lo = s.r.blo, hi = s.r.bhi;
    bool cast_problem = false, ok = false;
    auto cast_code = [&](i128 x){
        if(x > hi){ cast_problem = true; ok = ok || code == POS; }
        else if(x < lo){ cast_problem = true; ok = ok || code == (s.r.sgn ? NEGO : DOM); }
    };
    cast_code(a); if(s.op != NEG) cast_code(b);
    if(s.op == NEG && cast_problem){ return code == NEGO || code == POS || code == DOM; }
    if(is_shift(s.op)){
        if(ok) return true;
        if((code == NVS || code == NS) && (a < 0 || b < 0)) return true;
        if(code == STL && b > 0 && (b >= s.r.bits - (s.r.sgn ? 1 : 0) || e.v > hi || a < 0)) return true;
        return false;
    }
    if(s.op == DIV || s.op == MOD){
        if(b == 0) return code == DOM || ok;
        if(ok) return true;
        if(e.v > hi) return code == POS;
        if(e.v < lo) return code == NEGO;
        return cast_problem ? false : false;
    }
    if(cast_problem) return ok;
    if(e.v > hi) return code == POS;
    if(e.v < lo) return code == NEGO;
    return false; // spurious error, handled separately
}

inline void judge(const Site & s, i128 a, i128 b, int mask){
    Outcome o; exec2 f = s.f;
    observe([&](Outcome & q){ f(a, b, q); }, o);
    Exact e = exact(s.op, a, b, s.nbits, s.nsgn);
    bool nontriv = o.k != VALUE || (o.v != a && o.v != b);
    count(o, nontriv);
    auto in = [&]{ return s.op == NEG || s.op == NOT ? std::string(opname(s.op)) + " " + str(a) : str(a) + " " + opname(s.op) + " " + str(b); };
    auto want = [&]{ return e.st == 1 ? std::string("domain error (zero divisor)") : e.st == 2 ? std::string("shift error") : "exact result " + str(e.v); };
    auto rng = [&]{ return " [result type " + std::string(s.r.sgn ? "signed " : "unsigned ") + std::to_string(s.r.bits) + " bits, declared " + str(s.r.lo) + ".." + str(s.r.hi) + "]"; };
    if(o.k == VALUE){
        if((mask & J_EXACT) && (e.st != 0 || o.v != e.v)) fail(s.id, "wrong-value", in(), "got " + str(o.v) + ", " + want() + rng());
        if((mask & J_RANGE) && (o.v < s.r.lo || o.v > s.r.hi)) fail(s.id, "value-outside-declared-range", in(), "got " + str(o.v) + rng());
    } else if(o.k == ERROR){
        if(mask & J_SPURIOUS){
            if(must_succeed(s, a, b, e)) fail(s.id, "spurious-error", in(), "got " + show(o) + ", " + want() + rng());
            else if(!code_ok(s, a, b, e, o.code)) fail(s.id, "wrong-error-code", in(), "got " + show(o) + ", " + want() + rng());
        }
    } else if(mask & (J_EXACT | J_SPURIOUS | J_RANGE)) fail(s.id, "undefined-behaviour", in(), show(o) + ", " + want() + rng());
    if((mask & J_TYPE) && s.pol == AUTOMATIC && e.st == 0 && !is_cmp(s.op)){
        bool g = auto_signed(s); i128 lo = g ? I64LO : 0, hi = g ? I64HI : U64HI;
        auto rep = [&](i128 x){ return x >= lo && x <= hi; };
        if(!is_bit(s.op) && rep(a) && rep(e.v) && (s.op == NEG || rep(b)) && !(is_shift(s.op) && (a < 0 || b > 63)))
            if(e.v < s.r.blo || e.v > s.r.bhi) fail(s.id, "result-type-too-narrow", in(), want() + rng());
    }
    if(total.n % 100003 == 7) sample(std::string(s.id) + ": " + in() + " -> " + show(o) + rng());
}

inline void directed(const Site & s, i128 a, std::vector<i128> & v){
    i128 T[] = { s.r.blo, s.r.bhi, s.r.lo, s.r.hi, s.t.blo, s.t.bhi };
    i128 lo = s.u.lo, hi = s.u.hi;
    for(i128 t : T) for(int d = -1; d <= 1; ++d){
        switch(s.op){
        case ADD: add_clip(v, t - a + d, lo, hi); break;
        case SUB: add_clip(v, a - t + d, lo, hi); break;
        case MUL: if(a) add_clip(v, t / a + d, lo, hi); break;
        case DIV: case MOD: add_clip(v, a + d, lo, hi); add_clip(v, -a + d, lo, hi); if(t) add_clip(v, a / t + d, lo, hi); add_clip(v, d, lo, hi); break;
        case SHL: case SHR: {
            int bl = bitlen(a < 0 ? -(u128)a : (u128)a);
            add_clip(v, s.r.bits - bl + d, lo, hi); add_clip(v, s.r.bits - 1 - bl + d, lo, hi); add_clip(v, s.r.bits + d, lo, hi); add_clip(v, s.r.bits - 1 + d, lo, hi); add_clip(v, bl + d, lo, hi);
            break; }
        default: add_clip(v, a + d, lo, hi); break;
        }
    }
}

inline void static_type_check(const Site & s){
    std::string d = std::string(s.r.sgn ? "signed " : "unsigned ") + std::to_string(s.r.bits) + " bits";
    if(s.pol == NATIVE || (s.pol == AUTOMATIC && is_bit(s.op))){
        if(!s.same_builtin) fail(s.id, "result-type-differs-from-builtin", opname(s.op), "result base type " + d + ", built-in has " + (s.nsgn ? "signed " : "unsigned ") + std::to_string(s.nbits) + " bits");
    } else if(s.pol == AUTOMATIC){
        if(s.r.sgn != auto_signed(s)) fail(s.id, "result-signedness", opname(s.op), "result base type is " + d);
    }
}

inline void run_site(const Site & s, int mask, int nrand, i128 exh){
    progress(s.id);
    Rng r(seed ^ hash_str(s.id));
    ++feature[std::string("op:") + opname(s.op)];
    if(mask & J_TYPE){ static_type_check(s); ++feature[std::string("result type:") + (s.r.sgn ? "int" : "uint") + std::to_string(s.r.bits)]; }
    std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, exh), B = values(s.u.lo, s.u.hi, r, nrand, exh);
    if(s.op == NEG || s.op == NOT) B.assign(1, s.u.lo);
    for(i128 a : A){
        std::vector<i128> V = B;
        if(s.op != NEG && s.op != NOT) directed(s, a, V);
        uniq(V);
        for(i128 b : V){ judge(s, a, b, mask); if(fails_in_site > 6) return; }
    }
}
// entry: prog seed tier mask nrand exh [site a b]
inline int ops_main(int argc, char ** argv){
    args(argc, argv);
    int mask = atoi(argv[3]), nrand = atoi(argv[4]); i128 exh = parse(argv[5]);
    if(argc > 6){
        for(auto & s : sites()) if(!strcmp(s.id, argv[6])){
            progress(s.id); if(mask & J_TYPE) static_type_check(s); judge(s, parse(argv[7]), parse(argv[8]), mask);
        }
        done(); return 0;
    }
    for(auto & s : sites()) run_site(s, mask, nrand, exh);
    done(); return 0;
}
} // mon
#endif
