// Dispatch of errors to the configured action (C14): policies made of recording actions.
// Built with -fwrapv and without UBSan: ignoring an error means the built-in operation is carried out.
#ifndef VF_DISP_HPP
#define VF_DISP_HPP
#include "conv.hpp"
namespace mon {
struct Event { int cls, code; std::string msg; };
extern std::vector<Event> evlog;
struct Own { int cls, code; };
// In a program built without exceptions an action leaves the operation by a long jump instead, and the program supplies
// the operator() of the library's throw_exception, as the library provides for; nothing on the way has a destructor.
#if defined(__cpp_exceptions)
[[noreturn]] inline void leave(const Own & w){ throw w; }
#else
enum { JUMP_OWN = 1000, JUMP_SYS = 1001 };
inline Own & left(){ static Own w; return w; }
inline std::string & left_msg(){ static std::string s; return s; }
[[noreturn]] inline void leave(const Own & w){ left() = w; siglongjmp(jb, JUMP_OWN); }
[[noreturn]] inline void leave_sys(int code, const char * msg){ Own w = { -1, code }; left() = w; left_msg() = msg ? msg : ""; siglongjmp(jb, JUMP_SYS); }
#endif
// class: 0 arithmetic, 1 implementation defined, 2 undefined, 3 uninitialized; mode: 0 record and return, 1 record and throw Own, 2 record and delegate to the library's throw_exception
template<int CLS, int MODE> struct Act {
    constexpr Act() = default;
    void operator()(const sn::safe_numerics_error & e, const char * msg){
        Event v; v.cls = CLS; v.code = code_of(e); v.msg = msg ? msg : ""; evlog.push_back(v);
        if(MODE == 1){ Own w = { CLS, v.code }; leave(w); }
        if(MODE == 2) sn::throw_exception()(e, msg);
    }
};
template<int A, int I, int U, int V> using DP = sn::exception_policy<Act<0,A>, Act<1,I>, Act<2,U>, Act<3,V>>;
inline int class_of(int code){ return code >= POS && code <= UNDER ? 0 : code >= NVS && code <= STL ? 1 : code == UNINIT ? 3 : -1; }
inline const char * clsname(int c){ static const char * n[] = {"arithmetic","implementation-defined","undefined","uninitialized"}; return c >= 0 && c < 4 ? n[c] : "?"; }
inline std::string showlog(){ std::string s; for(auto & e : evlog) s += std::string(s.empty() ? "" : ", ") + clsname(e.cls) + ":" + codename(e.code); return "actions [" + s + "]"; }

struct DOut { int k; i128 v; int cls, code; std::string what; };   // k: 0 value, 1 own exception, 2 system_error, 3 other, 4 trap
template<class F> void dobserve(F && f, DOut & o){
    o = DOut(); int s = sigsetjmp(jb, 0);
#if !defined(__cpp_exceptions)
    if(s == JUMP_OWN){ armed = 0; o.k = 1; o.cls = left().cls; o.code = left().code; return; }
    if(s == JUMP_SYS){ armed = 0; o.k = 2; o.code = left().code; o.what = left_msg(); return; }
#endif
    if(s){ armed = 0; o.k = 4; o.code = s; return; }
    armed = 1;
#if !defined(__cpp_exceptions)
    o.v = f(); armed = 0; o.k = 0;
#else
    try { o.v = f(); armed = 0; o.k = 0; }
    catch(const Own & w){ armed = 0; o.k = 1; o.cls = w.cls; o.code = w.code; }
    catch(const std::system_error & e){ armed = 0; o.k = 2; o.code = code_of(e.code()); o.what = e.what(); if(std::strcmp(e.code().category().name(), "safe numerics error")) o.k = 3; }
    catch(const std::exception & e){ armed = 0; o.k = 3; o.what = e.what(); }
    catch(...){ armed = 0; o.k = 3; }
#endif
}
inline std::string show(const DOut & o){ return o.k == 0 ? "value " + str(o.v) : o.k == 4 ? "signal " + std::to_string(o.code) : o.k == 3 ? "unexpected exception " + o.what : std::string(o.k == 1 ? "own exception " : "system_error ") + codename(o.code); }

// The rules common to every step. first_ok(code): is the first code a correct description?
// Returns true if no action ran (the caller then judges the value as exact), false otherwise.
template<class G> bool common(const std::string & id, const std::string & in, const DOut & o, const int * mode, bool must, G first_ok){
    ++total.n; if(!evlog.empty() || o.k) ++total.nontriv;
    if(o.k) ++total.err; else ++total.val;
    if(o.k >= 3){ fail(id, "undefined-behaviour", in, show(o)); return false; }
    if(evlog.empty()){
        if(o.k) fail(id, "exception-without-action", in, show(o));
        return o.k == 0;
    }
    for(size_t i = 0; i < evlog.size(); ++i){
        const Event & e = evlog[i];
        ++feature[std::string("action:") + clsname(e.cls) + "/" + codename(e.code) + (mode[e.cls] == 0 ? " returned" : " threw")];
        if(class_of(e.code) != e.cls) fail(id, "wrong-action-for-code", in, showlog());
        if(e.msg.empty()) fail(id, "action-without-message", in, showlog());
        bool last = i + 1 == evlog.size();
        if(mode[e.cls] && !last) fail(id, "action-after-throw", in, showlog() + " " + show(o));
    }
    if(must) fail(id, "action-without-cause", in, showlog());
    else if(!first_ok(evlog[0].code)) fail(id, "wrong-code", in, showlog());
    const Event & l = evlog.back();
    if(mode[l.cls] == 0){ if(o.k) fail(id, "exception-without-throwing-action", in, showlog() + " " + show(o)); }
    else if(mode[l.cls] == 1){ if(o.k != 1 || o.cls != l.cls || o.code != l.code) fail(id, "exception-swallowed", in, showlog() + " " + show(o)); }
    else if(o.k != 2 || o.code != l.code) fail(id, "exception-swallowed", in, showlog() + " " + show(o));
    else if(o.what.find(l.msg) == std::string::npos) fail(id, "message-lost", in, show(o) + ": " + o.what + " lacks " + l.msg);
    return false;
}
struct DSite { Site s; int mode[4]; i128 (*f)(i128, i128); };
inline std::vector<DSite> & dsites(){ static std::vector<DSite> v; return v; }
template<class F, class T, class U> i128 dexec(i128 a, i128 b){
    const T t = maker<T>::make(a); const U u = maker<U>::make(b); evlog.clear();
    auto r = F::f(t, u); return raw(r);
}
template<class T, class U> struct common_builtin { using type = decltype(std::declval<typename sn::base_type<T>::type>() + std::declval<typename sn::base_type<U>::type>()); };
template<class F,class T,class U> void add_disp(const char * id, int pol, int m0, int m1, int m2, int m3){
    using R = decltype(F::f(std::declval<T>(), std::declval<U>()));
    using N0 = typename builtin_result<F, typename sn::base_type<T>::type, typename sn::base_type<U>::type>::type;
    using N = typename std::conditional<(F::op >= LT), typename common_builtin<T,U>::type, N0>::type;
    DSite d; Site & s = d.s; s.id = id; s.op = F::op; s.pol = pol; s.t = tinfo<T>(); s.u = tinfo<U>();
    s.r = F::op >= LT ? tinfo<N>() : tinfo<R>(); s.nbits = (int)sizeof(N) * 8; s.nsgn = std::is_signed<N>::value; s.same_builtin = true; s.f = 0;
    int m[] = {m0, m1, m2, m3}; memcpy(d.mode, m, sizeof m); d.f = &dexec<F,T,U>; dsites().push_back(d);
}
// value of the built-in operation carried out in a type of the given width; false if the built-in has no defined value
inline bool builtin_value(int op, i128 a, i128 b, int bits, bool sgn, i128 & v){
    i128 x = wrap(a, bits, sgn), y = wrap(b, bits, sgn);
    switch(op){
    case ADD: v = wrap((i128)((u128)x + (u128)y), bits, sgn); return true;
    case SUB: v = wrap((i128)((u128)x - (u128)y), bits, sgn); return true;
    case MUL: v = wrap((i128)((u128)x * (u128)y), bits, sgn); return true;
    case DIV: case MOD: if(y == 0 || (sgn && y == -1 && x == -((i128)1 << (bits - 1)))) return false; v = op == DIV ? x / y : x % y; return true;
    case SHL: if(b < 0 || b >= bits) return false; v = wrap((i128)((u128)x << (int)b), bits, sgn); return true;
    case SHR: if(b < 0 || b >= bits) return false; v = x >> (int)b; return true;
    case NEG: v = wrap(-x, bits, sgn); return true;
    case LT: v = x < y; return true; case LE: v = x <= y; return true; case GT: v = x > y; return true;
    case GE: v = x >= y; return true; case EQ: v = x == y; return true; case NE: v = x != y; return true;
    default: return false;
    }
}
inline void djudge(const DSite & d, i128 a, i128 b){
    const Site & s = d.s; DOut o; auto f = d.f;
    // the hardware traps on these whatever the policy; only meaningful if the action throws
    bool risky = (s.op == DIV || s.op == MOD) && (b == 0 || b == -1 || wrap(b, s.r.bits, s.r.sgn) == 0 || wrap(b, s.r.bits, s.r.sgn) == -1);
    if(risky && d.mode[0] == 0 && !must_succeed(s, a, b, exact(s.op, a, b, s.nbits, s.nsgn))) return;
    evlog.clear(); dobserve([&]{ return f(a, b); }, o);
    Exact e = exact(s.op, a, b, s.nbits, s.nsgn);
    std::string in = s.op == NEG || s.op == NOT ? std::string(opname(s.op)) + " " + str(a) : str(a) + " " + opname(s.op) + " " + str(b);
    bool must = must_succeed(s, a, b, e);
    bool silent = common(s.id, in, o, d.mode, must, [&](int code){ return is_cmp(s.op) && s.pol == AUTOMATIC ? code == POS || code == NEGO || code == DOM : code_ok(s, a, b, e, code); });
    if(silent){ if(e.st || o.v != e.v) fail(s.id, "no-action-for-inexact-result", in, show(o) + ", exact " + (e.st ? "none" : str(e.v))); }
    else if(o.k == 0 && !(is_cmp(s.op) && s.pol == AUTOMATIC)){
        i128 v; int bits = s.pol == NATIVE ? s.nbits : s.r.bits; bool sgn = s.pol == NATIVE ? s.nsgn : s.r.sgn;
        if(builtin_value(s.op, a, b, bits, sgn, v)){ ++feature["ignored result compared with built-in"]; if(o.v != v) fail(s.id, "ignored-result-differs-from-builtin", in, showlog() + " " + show(o) + ", built-in gives " + str(v)); }
    }
    if(total.n % 50021 < 3) sample(std::string(s.id) + ": " + in + " -> " + show(o) + " " + showlog());
}
// ---- steps that change a variable ----------------------------------------
enum StepKind { S_CONS, S_ASG, S_TOB, S_INC, S_PINC, S_DEC, S_PDEC, S_COMP };
inline const char * stepname(int k){ static const char * n[] = {"construct","assign","convert","++x","x++","--x","x--","op="}; return n[k]; }
struct DStep { const char * id; int kind, op; TInfo t, s, r; int nbits; bool nsgn; int pol; int mode[4]; i128 (*f)(i128 before, i128 v, i128 & after); };
inline std::vector<DStep> & dsteps(){ static std::vector<DStep> v; return v; }
template<class T> struct Look { const T & t; i128 & a; ~Look(){ a = raw(t); } };
template<int K, class F> struct stepper;
template<class F> struct stepper<S_CONS,F> { template<class T,class S> static i128 f(i128, i128 v, i128 & after){ const S s = maker<S>::make(v); evlog.clear(); T t(s); return after = raw(t); } };
template<class F> struct stepper<S_TOB,F> { template<class T,class S> static i128 f(i128, i128 v, i128 & after){ const S s = maker<S>::make(v); evlog.clear(); T t = s; return after = raw(t); } };
template<class F> struct stepper<S_ASG,F> { template<class T,class S> static i128 f(i128 b, i128 v, i128 & after){ const S s = maker<S>::make(v); T t = maker<T>::make(b); evlog.clear(); Look<T> l = {t, after}; t = s; return raw(t); } };
#define VF_STEP(K, E, RV) template<class F> struct stepper<K,F> { template<class T,class S> static i128 f(i128 b, i128, i128 & after){ T t = maker<T>::make(b); evlog.clear(); Look<T> l = {t, after}; E; (void)r; return RV; } };
VF_STEP(S_INC, auto & r = ++t, raw(t)) VF_STEP(S_PINC, auto r = t++, raw(t)) VF_STEP(S_DEC, auto & r = --t, raw(t)) VF_STEP(S_PDEC, auto r = t--, raw(t))
struct CAdd { enum { op = ADD }; template<class T,class S> static void g(T & t, const S & s){ t += s; } };
struct CSub { enum { op = SUB }; template<class T,class S> static void g(T & t, const S & s){ t -= s; } };
struct CMul { enum { op = MUL }; template<class T,class S> static void g(T & t, const S & s){ t *= s; } };
struct CDiv { enum { op = DIV }; template<class T,class S> static void g(T & t, const S & s){ t /= s; } };
struct CMod { enum { op = MOD }; template<class T,class S> static void g(T & t, const S & s){ t %= s; } };
template<class F> struct stepper<S_COMP,F> { template<class T,class S> static i128 f(i128 b, i128 v, i128 & after){ const S s = maker<S>::make(v); T t = maker<T>::make(b); evlog.clear(); Look<T> l = {t, after}; F::g(t, s); return raw(t); } };
template<int K, class F, class T, class S> void add_step(const char * id, int pol, int m0, int m1, int m2, int m3){
    using N = typename common_builtin<T,S>::type;
    DStep d; d.id = id; d.kind = K; d.op = F::op; d.t = tinfo<T>(); d.s = tinfo<S>(); d.r = tinfo<N>(); d.nbits = (int)sizeof(N) * 8; d.nsgn = std::is_signed<N>::value; d.pol = pol;
    int m[] = {m0, m1, m2, m3}; memcpy(d.mode, m, sizeof m); d.f = &stepper<K,F>::template f<T,S>; dsteps().push_back(d);
}
inline void sjudge(const DStep & d, i128 before, i128 v){
    int op = d.op; i128 operand = v;
    if(d.kind >= S_INC && d.kind <= S_PDEC){ op = d.kind <= S_PINC ? ADD : SUB; operand = 1; }
    bool conv = d.kind <= S_TOB;
    Exact e; if(conv){ e.st = 0; e.v = v; } else e = exact(op, before, operand, d.nbits, d.nsgn);
    Site s; memset(&s, 0, sizeof s); s.op = op; s.t = d.t; s.u = d.s; s.r = d.r; s.pol = NATIVE; s.nbits = d.nbits; s.nsgn = d.nsgn;
    // result type of an increment is that of x + int
    bool fits = e.st == 0 && e.v >= d.t.lo && e.v <= d.t.hi;
    bool must = fits && (conv || (d.pol == NATIVE && !(d.kind >= S_INC && d.kind <= S_PDEC) && must_succeed(s, before, operand, e)));
    bool risky = (op == DIV || op == MOD) && !conv && (operand == 0 || operand == -1);
    if(risky && d.mode[0] == 0) return;
    DOut o; i128 after = before; auto f = d.f; evlog.clear();
    dobserve([&]{ return f(before, v, after); }, o);
    std::string in = std::string(stepname(d.kind)) + (d.kind == S_COMP ? std::string(" ") + opname(op) : "") + " " + str(before) + " with " + str(operand);
    ConvSite c; c.t = d.t; c.s = d.s; c.id = d.id; c.kind = 0; c.f = 0;
    bool silent = common(d.id, in, o, d.mode, must, [&](int code){
        if(conv) return conv_code_ok(c, v, code);
        if(!fits && e.st == 0 && d.pol == NATIVE && must_succeed(s, before, operand, e)){ return e.v > d.t.hi ? code == POS : code == NEGO || code == DOM; }
        return code == POS || code == NEGO || code == DOM; });
    if(silent){ if(!fits || o.v != e.v) fail(d.id, "no-action-for-inexact-result", in, show(o) + " [target " + str(d.t.lo) + ".." + str(d.t.hi) + "]"); }
    else if(o.k == 0){
        i128 x = v; bool known = conv;
        if(!conv && d.pol == NATIVE && !(d.kind >= S_INC && d.kind <= S_PDEC && d.t.bits > 32)) known = builtin_value(op, before, operand, d.nbits, d.nsgn, x);
        i128 w = wrap(x, d.t.bits, d.t.sgn);
        if(known){ ++feature["ignored result compared with built-in"]; if(o.v != w) fail(d.id, "ignored-result-differs-from-builtin", in, showlog() + " " + show(o) + ", built-in gives " + str(w)); }
    } else if((o.k == 1 || o.k == 2) && !(d.kind == S_CONS || d.kind == S_TOB) && after != before) fail(d.id, "variable-changed-by-reported-step", in, "holds " + str(after));
}
// default construction
template<class T> void default_site(const char * id, int m0, int m1, int m2, int m3){
    progress(id); int mode[] = {m0, m1, m2, m3}; DOut o; evlog.clear();
    dobserve([&]{ T t; (void)t; return (i128)0; }, o);
    common(id, "default construction", o, mode, false, [](int code){ return code == UNINIT; });
    if(evlog.size() != 1) fail(id, "uninitialized-action-count", "default construction", showlog());
}
// two policies that must behave alike
template<class F, class T, class U, class T2, class U2> void alike(const char * id, int nrand){
    progress(id); Rng r(seed ^ hash_str(id)); TInfo a = tinfo<T>(), b = tinfo<U>();
    Site s; memset(&s, 0, sizeof s); s.op = F::op; s.t = a; s.u = b; s.r = tinfo<decltype(F::f(std::declval<T>(), std::declval<U>()))>();
    std::vector<i128> A = values(a.lo, a.hi, r, nrand, 20), B = values(b.lo, b.hi, r, nrand, 20);
    for(i128 x : A){ std::vector<i128> V = B; directed(s, x, V); uniq(V);
        for(i128 y : V){
            if((s.op == DIV || s.op == MOD) && (y == 0 || y == -1)) continue;
            DOut p, q; evlog.clear(); dobserve([&]{ return dexec<F,T2,U2>(x, y); }, q); dobserve([&]{ return dexec<F,T,U>(x, y); }, p);
            if(p.k == 0 && q.k == 0 && (s.op == SHL || s.op == SHR) && (y < 0 || y >= s.r.bits)) { ++total.n; continue; }   // built-in result undefined
            ++total.n; if(q.k) { ++total.err; ++total.nontriv; } else ++total.val;
            if(p.k != q.k || (p.k == 0 ? p.v != q.v : p.code != q.code)) fail(id, "predefined-policy-differs", str(x) + " " + opname(s.op) + " " + str(y), show(p) + " instead of " + show(q));
        } }
    ++feature["predefined policy compared"];
}
inline int disp_main(int argc, char ** argv){ // seed tier nrand exh
    int nrand = atoi(argv[3]); i128 exh = parse(argv[4]);
    for(auto & d : dsites()){
        const Site & s = d.s; progress(s.id); Rng r(seed ^ hash_str(s.id)); ++feature[std::string("op:") + opname(s.op)];
        std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, exh), B = values(s.u.lo, s.u.hi, r, nrand, exh);
        if(s.op == NEG || s.op == NOT) B.assign(1, s.u.lo);
        for(i128 a : A){
            std::vector<i128> V = B; if(s.op != NEG && s.op != NOT) directed(s, a, V); uniq(V);
            for(i128 b : V) djudge(d, a, b);
            if(fails_in_site > 6) break;
        }
    }
    for(auto & d : dsteps()){
        progress(d.id); Rng r(seed ^ hash_str(d.id)); ++feature[std::string("step:") + stepname(d.kind)];
        std::vector<i128> A = values(d.t.lo, d.t.hi, r, nrand / 2, exh), B = values(d.s.lo, d.s.hi, r, nrand, exh);
        if(d.kind <= S_TOB){ for(i128 x : {d.t.lo, d.t.hi}) for(int k = -2; k <= 2; ++k) add_clip(B, x + k, d.s.lo, d.s.hi); uniq(B); A.assign(1, d.t.lo); A.push_back(d.t.hi); }
        if(d.kind >= S_INC && d.kind <= S_PDEC) B.assign(1, d.s.lo);
        for(i128 a : A) for(i128 b : B){ sjudge(d, a, b); if(fails_in_site > 6) break; }
    }
    done(); return 0;
}
} // mon
#endif
