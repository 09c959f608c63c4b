// Which error actions are compiled into an operation, and does the operation need them? (C15)
// Every site has its own exception policy; an action that is instantiated anywhere for that site registers itself
// before main, so "is a run-time check compiled in" is observed, not inferred from the source.
#ifndef VF_ELIDE_HPP
#define VF_ELIDE_HPP
#include "conv.hpp"
namespace mon {
inline std::map<int,int> & reg(){ static std::map<int,int> m; return m; }   // site number -> mask of action classes
template<int ID, int CLS> struct Registrar { struct R { R(){ reg()[ID] |= 1 << CLS; } }; static R r; };
template<int ID, int CLS> typename Registrar<ID,CLS>::R Registrar<ID,CLS>::r;
template<int ID, int CLS> struct Hook {
    constexpr Hook() = default;
    void operator()(const sn::safe_numerics_error & e, const char * m){ (void)&Registrar<ID,CLS>::r; sn::throw_exception()(e, m); }
};
template<int ID> using EP = sn::exception_policy<Hook<ID,0>, Hook<ID,1>, Hook<ID,2>, Hook<ID,3>>;

// an object of safe type made without going through its (checking) constructors
template<class T> struct holder {
    alignas(T) unsigned char buf[sizeof(T)];
    explicit holder(i128 v){ using B = typename sn::base_type<T>::type; static_assert(sizeof(B) == sizeof(T), ""); B b = (B)v; memcpy(buf, &b, sizeof b); }
    const T & get() const { return *reinterpret_cast<const T *>(buf); }
};
template<class S, S N, class P, class E> struct holder<sn::safe_literal_impl<S,N,P,E>> { sn::safe_literal_impl<S,N,P,E> l; explicit holder(i128){} const sn::safe_literal_impl<S,N,P,E> & get() const { return l; } };
struct ESite { Site s; int no; bool conv; TInfo c1, c2; };
inline std::vector<ESite> & esites(){ static std::vector<ESite> v; return v; }
template<class F, class T, class U> void eexec(i128 a, i128 b, Outcome & o){ const holder<T> t(a); const holder<U> u(b); auto r = F::f(t.get(), u.get()); o.v = raw(r); }
template<class T, class S> void econs(i128 a, i128, Outcome & o){ const holder<S> s(a); T t(s.get()); o.v = raw(t); }
template<class T, class S> void etob(i128 a, i128, Outcome & o){ const holder<S> s(a); T t = s.get(); o.v = raw(t); }
template<class F,class T,class U> void add_e(int no, const char * id, int pol){
    using R = decltype(F::f(std::declval<T>(), std::declval<U>()));
    using N0 = typename builtin_result<F, typename sn::base_type<T>::type, typename sn::base_type<U>::type>::type;
    using C = decltype(std::declval<typename sn::base_type<T>::type>() + std::declval<typename sn::base_type<U>::type>());
    using N = typename std::conditional<(F::op >= LT), C, N0>::type;
    ESite e; Site & s = e.s; s.id = id; s.op = F::op; s.pol = pol; s.t = tinfo<T>(); s.u = tinfo<U>(); s.r = F::op >= LT ? tinfo<N>() : tinfo<R>();
    s.nbits = (int)sizeof(N) * 8; s.nsgn = std::is_signed<N>::value; s.same_builtin = true; s.f = &eexec<F,T,U>; e.no = no; e.conv = false; esites().push_back(e);
}
template<bool TOB,class T,class S> struct efn { static exec2 f(){ return &econs<T,S>; } };
template<class T,class S> struct efn<true,T,S> { static exec2 f(){ return &etob<T,S>; } };
template<bool TOB,class T,class S> void add_ec(int no, const char * id){
    ESite e; memset(&e, 0, sizeof e); e.s.id = id; e.s.t = tinfo<S>(); e.s.r = tinfo<T>(); e.no = no; e.conv = true; e.s.f = efn<TOB,T,S>::f(); esites().push_back(e);
}
// 1: the declared ranges rule out every error; 0: they do not; -1: no claim
inline int impossible(const ESite & e){
    const Site & s = e.s;
    if(e.conv) return s.t.lo >= s.r.lo && s.t.hi <= s.r.hi;
    if(is_bit(s.op)) return 1;
    if(is_shift(s.op) || s.op == NEG) return -1;   // unary minus is 0 - x where 0 has the full range of int
    i128 lo = s.r.blo, hi = s.r.bhi;
    if(s.pol == AUTOMATIC){ bool g = s.op >= LT ? s.t.sgn || s.u.sgn : auto_signed(s); lo = g ? I64LO : 0; hi = g ? I64HI : U64HI; }
    auto in = [&](i128 x){ return x >= lo && x <= hi; };
    if(!in(s.t.lo) || !in(s.t.hi)) return 0;
    if(s.op == NEG) return in(-s.t.lo) && in(-s.t.hi);
    if(!in(s.u.lo) || !in(s.u.hi)) return 0;
    if(s.op >= LT) return 1;
    if((s.op == DIV || s.op == MOD) && s.u.lo <= 0 && s.u.hi >= 0) return 0;
    if(s.op == MOD) return 1;
    for(i128 a : {s.t.lo, s.t.hi}) for(i128 b : {s.u.lo, s.u.hi}) if(!in(exact(s.op, a, b, 0, 0).v)) return 0;
    return 1;
}
inline void echeck(const ESite & e, int nrand, i128 exh){
    const Site & s = e.s; progress(s.id); Rng r(seed ^ hash_str(s.id));
    int mask = reg().count(e.no) ? reg()[e.no] : 0, imp = impossible(e);
    ++feature[e.conv ? "conversion" : std::string("op:") + opname(s.op)];
    ++feature[std::string(mask ? "check compiled in" : "no check compiled in") + (imp == 1 ? ", no error possible" : imp == 0 ? ", error not ruled out" : "")];
    std::string rg = "[" + str(s.t.lo) + "," + str(s.t.hi) + "]" + (e.conv ? " -> " : " , ") + "[" + str(e.conv ? s.r.lo : s.u.lo) + "," + str(e.conv ? s.r.hi : s.u.hi) + "]";
    if(imp == 1 && mask) fail(s.id, "check-compiled-in-although-no-error-possible", rg, "action classes " + std::to_string(mask));
    if(!is_shift(s.op) && (mask & ~1)) fail(s.id, "unrelated-action-compiled-in", rg, "action classes " + std::to_string(mask));
    printf("{\"t\":\"mask\",\"site\":\"%s\",\"no\":%d,\"mask\":%d,\"imp\":%d}\n", esc(s.id).c_str(), e.no, mask, imp);
    std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, exh), B = values(s.u.lo, s.u.hi, r, nrand, exh);
    if(e.conv || s.op == NEG || s.op == NOT) B.assign(1, s.u.lo);
    bool erred = false;
    for(i128 a : A){
        std::vector<i128> V = B; if(B.size() > 1) directed(s, a, V); uniq(V);
        if(e.conv){ for(i128 x : {s.r.lo, s.r.hi}) for(int k = -1; k <= 1; ++k) (void)x; }
        for(i128 b : V){
            Outcome o; exec2 f = s.f; observe([&](Outcome & q){ f(a, b, q); }, o);
            Exact x; if(e.conv){ x.st = a < s.r.lo || a > s.r.hi; x.v = a; } else x = exact(s.op, a, b, s.nbits, s.nsgn);
            count(o, !mask || o.k != VALUE); erred |= o.k == ERROR;
            std::string in = e.conv ? str(a) : s.op == NEG || s.op == NOT ? std::string(opname(s.op)) + " " + str(a) : str(a) + " " + opname(s.op) + " " + str(b);
            if(!mask && (o.k != VALUE || x.st || o.v != x.v)) fail(s.id, "needed-check-not-compiled-in", in + " of " + rg, show(o) + ", exact " + (x.st ? "none" : str(x.v)));
            else if(o.k == VALUE ? x.st || o.v != x.v : o.k != ERROR) fail(s.id, "wrong-outcome", in + " of " + rg, show(o));
            if(fails_in_site > 6) return;
        }
    }
    if(mask && !erred) ++feature["check compiled in, never fired"];
    if(total.n % 5003 < 60) sample(std::string(s.id) + ": " + (mask ? "check compiled in" : "no check") + ", " + std::to_string(A.size()) + " left operands");
}
inline int elide_main(int argc, char ** argv){ int nrand = atoi(argv[3]); i128 exh = parse(argv[4]); for(auto & e : esites()) echeck(e, nrand, exh); done(); return 0; }
} // mon
#endif
