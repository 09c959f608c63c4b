// Comparison sites (C08).
#ifndef VF_CMP_HPP
#define VF_CMP_HPP
#include "ops.hpp"
namespace mon {
typedef void (*exec_cmp)(i128, i128, int which, Outcome &);
struct CmpSite { const char * id; int pol; TInfo t, u; i128 clo, chi; bool csgn; exec_cmp f; };
inline std::vector<CmpSite> & cmp_sites(){ static std::vector<CmpSite> v; return v; }
template<class T,class U> void exec_cmp_site(i128 a, i128 b, int w, Outcome & o){
    const T t = maker<T>::make(a); const U u = maker<U>::make(b);
    bool r = false;
    switch(w){
    case LT: r = t < u; break; case LE: r = t <= u; break; case GT: r = t > u; break;
    case GE: r = t >= u; break; case EQ: r = t == u; break; case NE: r = t != u; break;
    }
    o.v = r;
}
template<class T,class U> void add_cmp(const char * id, int pol){
    using B = typename sn::base_type<T>::type; using C = typename sn::base_type<U>::type;
    using N = decltype(std::declval<B>() + std::declval<C>());
    CmpSite s; s.id = id; s.pol = pol; s.t = tinfo<T>(); s.u = tinfo<U>(); s.f = &exec_cmp_site<T,U>;
    if(pol == AUTOMATIC){ s.csgn = s.t.sgn || s.u.sgn; s.clo = s.csgn ? I64LO : 0; s.chi = s.csgn ? I64HI : U64HI; }
    else { s.csgn = std::is_signed<N>::value; s.clo = (i128)std::numeric_limits<N>::min(); s.chi = (i128)std::numeric_limits<N>::max(); }
    cmp_sites().push_back(s);
}
inline void judge_cmp(const CmpSite & s, i128 a, i128 b){
    bool fit = a >= s.clo && a <= s.chi && b >= s.clo && b <= s.chi;
    for(int w = LT; w <= NE; ++w){
        Outcome o; auto f = s.f;
        observe([&](Outcome & q){ f(a, b, w, q); }, o);
        Exact e = exact(w, a, b, 64, true);
        count(o, a != b || o.k != VALUE);
        std::string in = str(a) + " " + opname(w) + " " + str(b);
        std::string d = show(o) + ", truth " + str(e.v) + " [ranges " + str(s.t.lo) + ".." + str(s.t.hi) + " and " + str(s.u.lo) + ".." + str(s.u.hi) + "]";
        if(o.k == VALUE){ ++feature[o.v ? "verdict:true" : "verdict:false"]; if(o.v != e.v) fail(s.id, "wrong-verdict", in, d); }
        else if(o.k == ERROR){
            if(fit) fail(s.id, "spurious-error", in, d);
            else {
                bool ok = false;
                for(i128 x : {a, b}){ if(x > s.chi) ok = ok || o.code == POS; if(x < s.clo) ok = ok || o.code == (s.csgn ? NEGO : DOM); }
                if(!ok) fail(s.id, "wrong-error-code", in, d);
            }
        }
        else fail(s.id, "undefined-behaviour", in, d);
        if(total.n % 100003 == 5) sample(std::string(s.id) + ": " + in + " -> " + d);
    }
}
inline int cmp_main(int argc, char ** argv){ // seed tier nrand exh
    args(argc, argv); int nrand = atoi(argv[3]); i128 exh = parse(argv[4]);
    for(auto & s : cmp_sites()){
        progress(s.id); Rng r(seed ^ hash_str(s.id));
        std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, exh), B = values(s.u.lo, s.u.hi, r, nrand, exh);
        for(i128 a : A){
            std::vector<i128> V = B;
            for(int d = -1; d <= 1; ++d){ add_clip(V, a + d, s.u.lo, s.u.hi);
                for(int k : {8, 16, 32, 64}){ add_clip(V, a + d + ((i128)1 << k), s.u.lo, s.u.hi); add_clip(V, a + d - ((i128)1 << k), s.u.lo, s.u.hi); } }
            uniq(V);
            for(i128 b : V){ judge_cmp(s, a, b); if(fails_in_site > 6) break; }
            if(fails_in_site > 6) break;
        }
    }
    done(); return 0;
}
} // mon
#endif
