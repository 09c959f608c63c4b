// Histories of mutating operations against a shadow model (C09).
#ifndef VF_HIST_HPP
#define VF_HIST_HPP
#include "ops.hpp"
#include <tuple>
namespace mon {
#define VF_EQ(N, BASE, OPSYM) struct N { using base = BASE; template<class T,class U> static i128 f(T & t, const U & u){ return raw(t OPSYM u); } };
VF_EQ(EqAdd, FAdd, +=) VF_EQ(EqSub, FSub, -=) VF_EQ(EqMul, FMul, *=) VF_EQ(EqDiv, FDiv, /=) VF_EQ(EqMod, FMod, %=)
VF_EQ(EqShl, FShl, <<=) VF_EQ(EqShr, FShr, >>=) VF_EQ(EqAnd, FAnd, &=) VF_EQ(EqOr, FOr, |=) VF_EQ(EqXor, FXor, ^=)
// t = t op u, and t = u op t
#define VF_EX(N, BASE, OPSYM) struct N { using base = BASE; template<class T,class U> static i128 f(T & t, const U & u){ t = t OPSYM u; return raw(t); } };
VF_EX(ExAdd, FAdd, +) VF_EX(ExSub, FSub, -) VF_EX(ExMul, FMul, *) VF_EX(ExDiv, FDiv, /) VF_EX(ExMod, FMod, %)

enum StepKind { ST_BINARY, ST_PREINC, ST_PREDEC, ST_POSTINC, ST_POSTDEC, ST_ASSIGN, ST_COPY };
typedef void (*step_f)(Outcome &);
struct Step { const char * id; int kind; int i, j; Site s; step_f f; };
inline std::vector<Step> & steps(){ static std::vector<Step> v; return v; }
struct Var { TInfo t; i128 (*get)(); void (*set)(i128); const char * type; };
inline std::vector<Var> & vars(){ static std::vector<Var> v; return v; }

// Env is a std::tuple; the object lives in static storage, accessed through env<Env>()
template<class Env> Env * & env(){ static Env * e = 0; return e; }
template<class Env, int I> struct Acc {
    using T = typename std::tuple_element<I, Env>::type;
    static T & ref(){ return std::get<I>(*env<Env>()); }
    static i128 get(){ return raw(ref()); }
    static void set(i128 v){ // fresh object in place: no library assignment involved
        T n = maker<T>::make(v); memcpy((void *)&ref(), (const void *)&n, sizeof(T)); }
};
template<class Env, int I> void add_var(const char * type){
    using A = Acc<Env, I>; Var v = { tinfo<typename A::T>(), &A::get, &A::set, type }; vars().push_back(v);
}
template<class F, class T, class U> Site site_of(int pol){
    using R = decltype(F::f(std::declval<T>(), std::declval<U>()));
    using N = typename builtin_result<F, typename sn::base_type<T>::type, typename sn::base_type<U>::type>::type;
    Site s; s.id = ""; s.op = F::op; s.pol = pol; s.t = tinfo<T>(); s.u = tinfo<U>(); s.r = tinfo<R>();
    s.nbits = (int)sizeof(N) * 8; s.nsgn = std::is_signed<N>::value; s.same_builtin = true; s.f = 0; return s;
}
template<class Env, class Q, int I, int J> void exec_step(Outcome & o){ o.v = Q::f(Acc<Env,I>::ref(), Acc<Env,J>::ref()); }
template<class Env, class Q, int I, int J> void add_step(const char * id, int pol){
    Step s; s.id = id; s.kind = ST_BINARY; s.i = I; s.j = J;
    s.s = site_of<typename Q::base, typename Acc<Env,I>::T, typename Acc<Env,J>::T>(pol);
    s.f = &exec_step<Env,Q,I,J>; steps().push_back(s);
}
template<class Env, int I, int K> struct unary_step;
template<class Env, int I> struct unary_step<Env,I,ST_PREINC> { static void f(Outcome & o){ o.v = raw(++Acc<Env,I>::ref()); } };
template<class Env, int I> struct unary_step<Env,I,ST_PREDEC> { static void f(Outcome & o){ o.v = raw(--Acc<Env,I>::ref()); } };
template<class Env, int I> struct unary_step<Env,I,ST_POSTINC> { static void f(Outcome & o){ o.v = raw(Acc<Env,I>::ref()++); } };
template<class Env, int I> struct unary_step<Env,I,ST_POSTDEC> { static void f(Outcome & o){ o.v = raw(Acc<Env,I>::ref()--); } };
template<class Env, int I, int K> void add_unary(const char * id, int pol){
    using T = typename Acc<Env,I>::T;
    Step s; s.id = id; s.kind = K; s.i = I; s.j = I;
    s.s = site_of<typename std::conditional<K == ST_PREINC || K == ST_POSTINC, FAdd, FSub>::type, T, int>(pol);
    s.f = &unary_step<Env,I,K>::f; steps().push_back(s);
}
template<class Env, int I, int J> void exec_assign(Outcome & o){ Acc<Env,I>::ref() = Acc<Env,J>::ref(); o.v = Acc<Env,I>::get(); }
template<class Env, int I, int J> void add_assign(const char * id, int pol){
    Step s; s.id = id; s.kind = ST_ASSIGN; s.i = I; s.j = J;
    s.s = site_of<FAdd, typename Acc<Env,I>::T, typename Acc<Env,J>::T>(pol); s.f = &exec_assign<Env,I,J>; steps().push_back(s);
}
template<class Env, int I> void exec_copy(Outcome & o){ // copy, move and self assignment
    using T = typename Acc<Env,I>::T; T & t = Acc<Env,I>::ref(); T c(t); T d(std::move(c)); T & alias = t; t = alias; t = d; t = std::move(d); o.v = raw(t);
}
template<class Env, int I> void add_copy(const char * id, int pol){
    Step s; s.id = id; s.kind = ST_COPY; s.i = I; s.j = I;
    s.s = site_of<FAdd, typename Acc<Env,I>::T, typename Acc<Env,I>::T>(pol); s.f = &exec_copy<Env,I>; steps().push_back(s);
}

inline i128 draw(const TInfo & t, Rng & r){
    i128 v;
    switch(r.below(5)){
    case 0: v = t.lo + (i128)r.below(3); break;
    case 1: v = t.hi - (i128)r.below(3); break;
    case 2: case 3: v = (i128)r.below(9) - 3; break;
    default: return r.range(t.lo, t.hi);
    }
    return v < t.lo ? t.lo : v > t.hi ? t.hi : v;
}

inline int hist_main(int argc, char ** argv){ // seed tier histories length
    args(argc, argv); int H = atoi(argv[3]), L = atoi(argv[4]);
    std::vector<Var> & V = vars(); std::vector<Step> & S = steps();
    std::string name = "vars:"; for(auto & v : V) name += std::string(" ") + v.type;
    progress(name); nsites += S.size() - 1;
    Rng r(seed ^ hash_str(name.c_str()));
    std::vector<i128> m(V.size());
    std::set<std::string> shapes;
    for(int h = 0; h < H; ++h){
        std::string log;
        for(size_t i = 0; i < V.size(); ++i){ m[i] = draw(V[i].t, r); V[i].set(m[i]); }
        for(auto x : m) log += str(x) + " ";
        unsigned failed_before = 0;
        for(int k = 0; k < L; ++k){
            if(r.below(8) == 0){ // the environment changes one variable (fresh object)
                size_t i = r.below(V.size()); m[i] = draw(V[i].t, r); V[i].set(m[i]); log += "; #" + std::to_string(i) + ":=" + str(m[i]);
            }
            const Step & s = S[r.below(S.size())];
            Outcome o; auto f = s.f; observe([&](Outcome & q){ f(q); }, o);
            log += std::string("; ") + s.id;
            if(log.size() > 600) log = "..." + log.substr(log.size() - 500);
            const TInfo & tt = V[s.i].t;
            i128 a = m[s.i], b = s.kind == ST_BINARY || s.kind == ST_ASSIGN ? m[s.j] : 1;
            Exact e; i128 ret;
            bool must;
            if(s.kind == ST_ASSIGN || s.kind == ST_COPY){ e.st = 0; e.v = s.kind == ST_COPY ? a : b; ret = e.v; must = e.v >= tt.lo && e.v <= tt.hi; }
            else {
                e = exact(s.s.op, a, b, s.s.nbits, s.s.nsgn);
                ret = s.kind == ST_POSTINC || s.kind == ST_POSTDEC ? a : e.v;
                must = must_succeed(s.s, a, b, e) && e.v >= tt.lo && e.v <= tt.hi;
            }
            count(o, true);
            ++feature[o.k == VALUE ? "steps succeeded" : "steps reported"];
            if(failed_before && o.k == VALUE) ++feature["successful steps after a failed one"];
            std::string d = std::string("step ") + s.id + " with " + str(a) + ", " + str(b) + " -> " + show(o) + ", now " + str(V[s.i].get()) + ", model " + (e.st ? "error" : str(e.v)) + " [target " + str(tt.lo) + ".." + str(tt.hi) + "]";
            i128 want = a;
            if(o.k == VALUE){
                want = e.v;
                if(e.st || V[s.i].get() != e.v) fail(s.id, "wrong-value-stored", log, d);
                else if(o.v != ret) fail(s.id, "wrong-value-returned", log, d + " returned " + str(o.v));
                if(e.v < tt.lo || e.v > tt.hi) fail(s.id, "value-outside-declared-range", log, d);
            } else if(o.k == ERROR){
                ++failed_before;
                if(must) fail(s.id, "spurious-error", log, d);
                if(V[s.i].get() != a) fail(s.id, "target-modified-by-failed-step", log, d);
            } else { fail(s.id, "undefined-behaviour", log, d); }
            m[s.i] = V[s.i].get(); (void)want;
            for(size_t i = 0; i < V.size(); ++i) if((int)i != s.i && V[i].get() != m[i]){
                fail(s.id, "other-variable-modified", log, d + "; variable " + std::to_string(i) + " was " + str(m[i]) + " is " + str(V[i].get())); m[i] = V[i].get(); }
            if(m[s.i] < tt.lo || m[s.i] > tt.hi){ m[s.i] = tt.lo; V[s.i].set(m[s.i]); }
            if(fails_in_site > 5){ done(); return 0; }
        }
        ++feature["histories"];
        if(h < 1) sample(name + " | " + log);
    }
    done(); return 0;
}
} // mon
#endif
