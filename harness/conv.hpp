// Construction, assignment and conversion sites (C07).
#ifndef VF_CONV_HPP
#define VF_CONV_HPP
#include "ops.hpp"
namespace mon {
enum ConvKind { C_DIRECT, C_COPY, C_ASSIGN, C_TO_BUILTIN, C_STATIC_CAST, C_BRACE };
inline const char * convname(int k){ static const char * n[] = {"construct","initialise","assign","convert","static_cast","brace"}; return n[k]; }
struct ConvSite { const char * id; int kind; TInfo t, s; void (*f)(i128 v, i128 before, i128 * after, Outcome &); };
inline std::vector<ConvSite> & conv_sites(){ static std::vector<ConvSite> v; return v; }

template<int K, class T, class S> struct conv_exec;
template<class T, class S> struct conv_exec<C_DIRECT,T,S> { static void f(i128 v, i128, i128 *, Outcome & o){ const S s = maker<S>::make(v); T t(s); o.v = raw(t); } };
template<class T, class S> struct conv_exec<C_BRACE,T,S> { static void f(i128 v, i128, i128 *, Outcome & o){ const S s = maker<S>::make(v); T t{s}; o.v = raw(t); } };
template<class T, class S> struct conv_exec<C_COPY,T,S> { static void f(i128 v, i128, i128 *, Outcome & o){ const S s = maker<S>::make(v); T t = s; o.v = raw(t); } };
template<class T, class S> struct conv_exec<C_STATIC_CAST,T,S> { static void f(i128 v, i128, i128 *, Outcome & o){ const S s = maker<S>::make(v); o.v = raw(static_cast<T>(s)); } };
template<class T, class S> struct conv_exec<C_TO_BUILTIN,T,S> { static void f(i128 v, i128, i128 *, Outcome & o){ const S s = maker<S>::make(v); T t = s; o.v = (i128)t; } };
template<class T, class S> struct conv_exec<C_ASSIGN,T,S> { static void f(i128 v, i128 before, i128 * after, Outcome & o){
    const S s = maker<S>::make(v); T t = maker<T>::make(before); *after = before;
    struct Look { const T & t; i128 * a; ~Look(){ *a = raw(t); } } look = { t, after };  // reads the target also when unwinding
    const T & r = (t = s); o.v = raw(r);
    if(&r != &t && raw(r) != raw(t)) o.v = raw(t) + 1;
} };

template<int K, class T, class S> void add_conv(const char * id){
    ConvSite c; c.id = id; c.kind = K; c.t = tinfo<T>(); c.s = tinfo<S>(); c.f = &conv_exec<K,T,S>::f; conv_sites().push_back(c);
}
inline bool conv_code_ok(const ConvSite & c, i128 v, int code){
    if(v > c.t.hi) return code == POS;
    if(!c.t.sgn && v < 0) return code == DOM;                        // unconvertible sign
    if(!c.t.sgn && c.s.sgn) return code == NEGO || code == DOM;      // "too low or negative"
    return code == NEGO;
}
inline void judge_conv(const ConvSite & c, i128 v, i128 before){
    Outcome o; i128 after = before; auto f = c.f;
    observe([&](Outcome & q){ f(v, before, &after, q); }, o);
    bool fits = v >= c.t.lo && v <= c.t.hi;
    count(o, o.k != VALUE || v != 0);
    std::string in = std::string(convname(c.kind)) + " from " + str(v) + (c.kind == C_ASSIGN ? " (target held " + str(before) + ")" : "");
    std::string tg = " [target " + str(c.t.lo) + ".." + str(c.t.hi) + (c.t.sgn ? " signed" : " unsigned") + "]";
    if(o.k == VALUE){
        if(o.v != v) fail(c.id, "wrong-value", in, "got " + str(o.v) + tg);
        else if(!fits) fail(c.id, "out-of-range-accepted", in, "got " + str(o.v) + tg);
        if(c.kind == C_ASSIGN && after != v) fail(c.id, "wrong-value-stored", in, "target holds " + str(after) + tg);
    } else if(o.k == ERROR){
        if(fits) fail(c.id, "spurious-error", in, show(o) + tg);
        else if(!conv_code_ok(c, v, o.code)) fail(c.id, "wrong-error-code", in, show(o) + tg);
        if(c.kind == C_ASSIGN && after != before) fail(c.id, "target-modified", in, "target holds " + str(after) + " after " + show(o) + tg);
    } else fail(c.id, "undefined-behaviour", in, show(o) + tg);
    if(total.n % 20021 == 5) sample(std::string(c.id) + ": " + in + " -> " + show(o) + tg);
}
inline int conv_main(int argc, char ** argv){ // seed tier nrand exh
    args(argc, argv); int nrand = atoi(argv[3]); i128 exh = parse(argv[4]);
    for(auto & c : conv_sites()){
        progress(c.id); Rng r(seed ^ hash_str(c.id)); ++feature[std::string("kind:") + convname(c.kind)];
        std::vector<i128> V = values(c.s.lo, c.s.hi, r, nrand, exh);
        for(i128 e : {c.t.lo, c.t.hi, c.t.blo, c.t.bhi}) for(int d = -2; d <= 2; ++d) add_clip(V, e + d, c.s.lo, c.s.hi);
        // values that alias an acceptable one modulo a power of two
        for(int b : {8, 16, 32}) for(i128 e : {c.t.lo, c.t.hi, (i128)0, (i128)1}) for(int m = -2; m <= 2; ++m) add_clip(V, e + m * ((i128)1 << b), c.s.lo, c.s.hi);
        uniq(V);
        for(i128 v : V){
            judge_conv(c, v, c.t.lo);
            if(c.kind == C_ASSIGN){ judge_conv(c, v, c.t.hi); judge_conv(c, v, r.range(c.t.lo, c.t.hi)); }
            if(fails_in_site > 6) break;
        }
    }
    done(); return 0;
}
} // mon
#endif
