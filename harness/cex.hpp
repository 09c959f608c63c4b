// Constant evaluation against run time (C18).
#ifndef VF_CEX_HPP
#define VF_CEX_HPP
#include "ops.hpp"
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
namespace mon {
template<class T> struct cmk { template<class B> static constexpr T make(B v){ return T(v); } };
template<class S, S N, class P, class E> struct cmk<sn::safe_literal_impl<S,N,P,E>> { template<class B> static constexpr sn::safe_literal_impl<S,N,P,E> make(B){ return sn::safe_literal_impl<S,N,P,E>(); } };
template<class T> constexpr i128 raw_cr(const sn::checked_result<T> & r){
    return r.exception() ? ((i128)1 << 100) + static_cast<int>(static_cast<sn::safe_numerics_error>(r)) : (i128)static_cast<T>(r);
}
// what is evaluated: an operator, a conversion, a history of one variable, a primitive
template<class F> struct OpF { template<class T,class U> static constexpr i128 go(const T & t, const U & u){ return raw(F::f(t, u)); } };
template<class R> struct CtorF { template<class T,class U> static constexpr i128 go(const T & t, const U &){ return raw(R(t)); } };
template<class R> struct CastF { template<class T,class U> static constexpr i128 go(const T & t, const U &){ return raw(static_cast<R>(t)); } };
template<class R> struct ImplF { template<class T,class U> static constexpr i128 go(const T & t, const U &){ R r = t; return raw(r); } };
template<class R> struct AsgnF { template<class T,class U> static constexpr i128 go(const T & t, const U & u){ T x = t; x = u; return raw(x); } };
#define VF_HIST(N, STMT) struct N { template<class T,class U> static constexpr i128 go(const T & t, const U & u){ T x = t; STMT; return raw(x); } };
VF_HIST(HAdd, x += u) VF_HIST(HSub, x -= u) VF_HIST(HMul, x *= u) VF_HIST(HDiv, x /= u) VF_HIST(HMod, x %= u)
VF_HIST(HShl, x <<= u) VF_HIST(HShr, x >>= u) VF_HIST(HAnd, x &= u) VF_HIST(HOr, x |= u) VF_HIST(HXor, x ^= u)
VF_HIST(HInc, ++x) VF_HIST(HDec, --x) VF_HIST(HIncP, x++; ++x) VF_HIST(HDecP, x--; --x) VF_HIST(HSeq, ++x; x -= u; x--; x += u)
#undef VF_HIST
#define VF_PRIM(N, E) template<class R> struct N { template<class T,class U> static constexpr i128 go(const T & t, const U & u){ return raw_cr(E); } };
VF_PRIM(KAdd, sn::checked::add<R>(R(t), R(u))) VF_PRIM(KSub, sn::checked::subtract<R>(R(t), R(u))) VF_PRIM(KMul, sn::checked::multiply<R>(R(t), R(u)))
VF_PRIM(KDiv, sn::checked::divide<R>(R(t), R(u))) VF_PRIM(KMod, sn::checked::modulus<R>(R(t), R(u)))
VF_PRIM(KShl, sn::checked::left_shift<R>(R(t), R(u))) VF_PRIM(KShr, sn::checked::right_shift<R>(R(t), R(u)))
VF_PRIM(KAnd, sn::checked::bitwise_and<R>(R(t), R(u))) VF_PRIM(KOr, sn::checked::bitwise_or<R>(R(t), R(u))) VF_PRIM(KXor, sn::checked::bitwise_xor<R>(R(t), R(u)))
VF_PRIM(KNot, sn::checked::bitwise_not<R>(R(t))) VF_PRIM(KNeg, sn::checked::minus<R>(R(t))) VF_PRIM(KCast, sn::checked::cast<R>(t))
// checked_result operators, also on exceptional operands
VF_PRIM(QSum, (sn::checked::add<R>(R(t), R(u)) + sn::checked_result<R>(R(u)))) VF_PRIM(QDif, (sn::checked::multiply<R>(R(t), R(u)) - sn::checked::add<R>(R(t), R(u))))
VF_PRIM(QMul, (sn::checked::subtract<R>(R(t), R(u)) * sn::checked_result<R>(R(t)))) VF_PRIM(QDiv, (sn::checked_result<R>(R(t)) / sn::checked::subtract<R>(R(u), R(t)))) VF_PRIM(QShl, (sn::checked::add<R>(R(t), R(u)) << sn::checked_result<R>(R(3))))
#undef VF_PRIM

template<class T, bool = std::is_enum<T>::value> struct holds { using type = typename sn::base_type<T>::type; };
template<class T> struct holds<T, true> { using type = typename std::underlying_type<T>::type; };
template<class T> struct holds<num<T>, false> { using type = T; };
template<class T> struct cmk<num<T>> { static constexpr num<T> make(T v){ return num<T>{v}; } };
template<class W,class T,class U> struct CX {
    using TB = typename holds<T>::type; using UB = typename holds<U>::type;
    template<TB A, UB B> struct V { static constexpr i128 eval(){ return W::go(cmk<T>::make(A), cmk<U>::make(B)); } };
    static void rt(i128 a, i128 b, Outcome & o){ const T t = cmk<T>::make((TB)a); const U u = cmk<U>::make((UB)b); o.v = W::go(t, u); }
};
template<class X> constexpr auto constant(int) -> decltype(std::integral_constant<int, (X::eval(), 0)>(), bool()) { return true; }
template<class X> constexpr bool constant(...) { return false; }
template<class X, bool> struct cval { static constexpr i128 v = 0; };
template<class X> struct cval<X, true> { static constexpr i128 v = X::eval(); };
struct Pair { i128 a, b; bool is; i128 v; };
template<class X, class V> Pair pr(i128 a, i128 b){ constexpr bool c = constant<V>(0); Pair p = { a, b, c, cval<V, c>::v }; return p; }

struct CSite { const char * id; exec2 f; std::vector<Pair> p; TInfo t, u; bool prim, unary; };
inline std::vector<CSite> & csites(){ static std::vector<CSite> v; return v; }
template<class W,class T,class U> void add_cx(const char * id, bool prim, bool unary, std::initializer_list<Pair> p){
    CSite s; s.id = id; s.f = &CX<W,T,U>::rt; s.p = p; s.t = tinfo<T>(); s.u = tinfo<U>(); s.prim = prim; s.unary = unary; csites().push_back(s);
}
inline std::string showv(i128 v){ return v >= (i128)1 << 100 ? std::string("error state ") + codename((int)(v - ((i128)1 << 100))) : str(v); }
// right operands aimed at the edge of 32 and 64 bit results
inline std::vector<i128> aimed(const CSite & s, i128 a, const std::vector<i128> & B, Rng & r){
    std::vector<i128> v = B; if(s.unary) return v;
    static const i128 T[] = { (i128)0x7fffffff, -(i128)0x80000000ll, (i128)0xffffffffu, (i128)0x7fffffffffffffffll, -(i128)0x7fffffffffffffffll - 1, (i128)0xffffffffffffffffull };
    for(i128 t : T) for(int d = -1; d <= 1; ++d){ add_clip(v, t - a + d, s.u.lo, s.u.hi); add_clip(v, a - t + d, s.u.lo, s.u.hi); if(a) add_clip(v, t / a + d, s.u.lo, s.u.hi); }
    add_clip(v, (i128)(r.next() >> 1 >> r.below(63)), s.u.lo, s.u.hi); uniq(v); return v;
}
// prog seed tier nrand
inline int cex_main(int argc, char ** argv){
    args(argc, argv); int nrand = atoi(argv[3]);
    for(auto & s : csites()){
        progress(s.id);
        for(auto & p : s.p){
            volatile long long alo = (long long)p.a, blo = (long long)p.b; (void)alo; (void)blo;
            i128 a = p.a, b = p.b; asm volatile("" : "+m"(a), "+m"(b));
            Outcome o; auto f = s.f; observe([&](Outcome & q){ f(a, b, q); }, o); count(o, true);
            std::string in = str(p.a) + (s.unary ? "" : " , " + str(p.b));
            std::string d = "constant evaluation " + (p.is ? "gives " + showv(p.v) : std::string("is rejected")) + ", run time gives " + (o.k == VALUE ? showv(o.v) : show(o));
            ++feature[p.is ? "constant" : "rejected as a constant"];
            if(o.k == TRAP || o.k == OTHER) fail(s.id, "undefined-behaviour", in, d);
            else if(p.is && o.k != VALUE) fail(s.id, "constant-though-run-time-reports", in, d);
            else if(!p.is && o.k == VALUE) fail(s.id, "rejected-as-constant-though-valid", in, d);
            else if(p.is && p.v != o.v) fail(s.id, "constant-differs-from-run-time", in, d);
            if(total.n % 501 == 3) sample(std::string(s.id) + ": " + in + " -> " + d);
        }
        // digest of run-time outcomes on many more values, compared between compilers and optimisation levels
        Rng r(seed ^ hash_str(s.id)); uint64_t h = 0; unsigned long long n = 0;
        std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, 24), B = values(s.u.lo, s.u.hi, r, nrand, 24); if(s.unary) B.resize(1);
        std::string first;
        for(i128 a : A) for(i128 b : aimed(s, a, B, r)){
            Outcome o; auto f = s.f; observe([&](Outcome & q){ f(a, b, q); }, o); count(o, true); ++n;
            uint64_t w = o.k == VALUE ? hash_str(str(o.v).c_str()) : o.k == ERROR ? 77 + o.code : 1;
            h = (h ^ w) * 1099511628211ull;
        }
        printf("{\"t\":\"digest\",\"site\":\"%s\",\"h\":\"%llx\",\"n\":%llu}\n", esc(s.id).c_str(), (unsigned long long)h, n);
    }
    // for a replay of one digest mismatch: argv[4] = site, list every outcome
    if(argc > 4) for(auto & s : csites()) if(!strcmp(s.id, argv[4])){
        Rng r(seed ^ hash_str(s.id)); std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, 24), B = values(s.u.lo, s.u.hi, r, nrand, 24); if(s.unary) B.resize(1);
        for(i128 a : A) for(i128 b : aimed(s, a, B, r)){ Outcome o; auto f = s.f; observe([&](Outcome & q){ f(a, b, q); }, o); printf("{\"t\":\"out\",\"in\":\"%s , %s\",\"o\":\"%s\"}\n", str(a).c_str(), str(b).c_str(), (o.k == VALUE ? showv(o.v) : show(o)).c_str()); }
    }
    done(); return 0;
}
}
#endif
