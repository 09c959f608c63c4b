// Extended (checked_result) arithmetic against integers with +inf, -inf and undefined (C12).
#ifndef VF_EXT_HPP
#define VF_EXT_HPP
#include "prim.hpp"
#include <boost/logic/tribool.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
namespace mon {
struct Ext { int s; i128 v; int code; };   // s: 0 value, -1/+1 infinite, 2 undefined
inline Ext ev(i128 v){ Ext e; e.s = 0; e.v = v; e.code = 0; return e; }
inline Ext ex(int code){ Ext e; e.s = code == POS ? 1 : code == NEGO ? -1 : 2; e.v = 0; e.code = code; return e; }
inline std::string show(const Ext & e){ return e.s == 0 ? str(e.v) : std::string(e.s == 1 ? "+inf" : e.s == -1 ? "-inf" : codename(e.code)); }
template<class T> sn::checked_result<T> mk(const Ext & e){
    using E = sn::safe_numerics_error;
    static const E order[] = {E::success,E::positive_overflow_error,E::negative_overflow_error,E::domain_error,E::range_error,E::precision_overflow_error,
        E::underflow_error,E::negative_value_shift,E::negative_shift,E::shift_too_large,E::uninitialized_value};
    return e.s == 0 ? sn::checked_result<T>((T)e.v) : sn::checked_result<T>(order[e.code], "x");
}
// what is allowed: bit 0 value v, bit 1 +inf, bit 2 -inf, bit 3 undefined
struct Want { int m; i128 v; };
enum { W_V = 1, W_P = 2, W_N = 4, W_U = 8, W_ANY = W_P | W_N | W_U };
inline Want w(int m, i128 v = 0){ Want x; x.m = m; x.v = v; return x; }
inline Want fit(i128 v, const TInfo & t){ return v > t.hi ? w(W_P) : v < t.lo ? w(W_N) : w(W_V, v); }
inline int sg(const Ext & e){ return e.s ? e.s : e.v < 0 ? -1 : e.v > 0 ? 1 : 0; }
inline Want dir(int s){ return w(s > 0 ? W_P : W_N); }
inline Want want(int op, const Ext & a, const Ext & b, const TInfo & t){
    bool un = op == NEG || op == NOT;
    bool ia = a.s == 1 || a.s == -1, ib = b.s == 1 || b.s == -1;
    if(op == NEG){ if(a.s == 2) return w(W_ANY); if(ia) return dir(-a.s); return fit(-a.v, t); }
    if(a.s == 2 || (!un && b.s == 2)){
        bool z = (op == MUL && (sg(a) == 0 || sg(b) == 0)) || ((op == SHL || op == SHR) && a.s == 0 && a.v == 0);
        return w(z ? W_V | W_U : W_U, 0);
    }
    switch(op){
    case ADD: if(ia && ib) return a.s == b.s ? dir(a.s) : w(W_U); if(ia) return dir(a.s); if(ib) return dir(b.s); return fit(a.v + b.v, t);
    case SUB: if(ia && ib) return a.s != b.s ? dir(a.s) : w(W_U); if(ia) return dir(a.s); if(ib) return dir(-b.s); return fit(a.v - b.v, t);
    case MUL: if(sg(a) == 0 || sg(b) == 0) return w(W_V | (ia || ib ? W_U : 0), 0); if(ia || ib) return dir(sg(a) * sg(b)); return fit(sat_mul(a.v, b.v), t);
    case DIV: if(ia && ib) return w(W_ANY); if(ib) return w(W_V | W_U, 0); if(b.v == 0) return w(W_ANY); if(ia) return dir(a.s * sg(b)); return fit(a.v / b.v, t);
    case MOD: if(ia) return w(ib || b.v == 0 ? W_ANY : W_V | W_ANY, HUGE_);   // a bound on the remainder, no claim
        if(ib) return w(W_V | W_U, a.v); if(b.v == 0) return w(W_ANY); return fit(a.v % b.v, t);
    case SHL: case SHR: {
        int k = op == SHL ? 1 : -1;
        if(sg(a) == 0) return w(W_V | (b.s ? W_U : 0), 0);
        if(ib){
            if(ia) return b.s * k > 0 ? dir(a.s) : w(W_U | (a.s > 0 ? W_P : W_N));
            return b.s * k > 0 ? dir(sg(a)) : w(W_V, a.v < 0 ? -1 : 0);
        }
        if(ia) return dir(a.s);
        i128 c = b.v * k;
        if(c >= 0) return c > 100 ? dir(sg(a)) : fit(sat_mul(a.v, (i128)1 << (int)c), t);
        return fit(floor_shr(a.v, -c), t);
    }
    case AND: case OR: case XOR: case NOT:
        if(ia || (!un && ib)) return w(W_U);
        return w(W_V, exact(op, a.v, b.v, t.bits, t.sgn).v);
    }
    return w(W_ANY);
}
template<class T> void ext_op(int op, const Ext & a, const Ext & b, Outcome & o){
    const sn::checked_result<T> x = mk<T>(a), y = mk<T>(b);
    switch(op){
    case ADD: take(x + y, o); break; case SUB: take(x - y, o); break; case MUL: take(x * y, o); break;
    case DIV: take(x / y, o); break; case MOD: take(x % y, o); break; case SHL: take(x << y, o); break;
    case SHR: take(x >> y, o); break; case AND: take(x & y, o); break; case OR: take(x | y, o); break;
    case XOR: take(x ^ y, o); break; case NEG: take(-x, o); break; case NOT: take(~x, o); break;
    }
}
inline int tri(const boost::logic::tribool & t){ return boost::logic::indeterminate(t) ? 2 : t ? 1 : 0; }
template<class T> int ext_cmp(int op, const Ext & a, const Ext & b){
    const sn::checked_result<T> x = mk<T>(a), y = mk<T>(b);
    switch(op){
    case LT: return tri(x < y); case LE: return tri(x <= y); case GT: return tri(x > y);
    case GE: return tri(x >= y); case EQ: return tri(x == y); default: return tri(x != y);
    }
}
template<class T> void ext_judge(const char * id, int op, const Ext & a, const Ext & b, const TInfo & t){
    Outcome o; int verdict = -1;
    observe([&](Outcome & q){ if(is_cmp(op)) verdict = ext_cmp<T>(op, a, b); else ext_op<T>(op, a, b, q); }, o);
    auto in = [&]{ return op == NEG || op == NOT ? std::string(opname(op)) + " " + show(a) : show(a) + " " + opname(op) + " " + show(b); };
    Outcome c = o; if(o.k == VALUE && o.code) c.k = ERROR; count(c, a.s || b.s || o.code || (o.v != a.v && o.v != b.v));
    if(o.k != VALUE){ fail(id, "undefined-behaviour", in(), show(o)); return; }
    if(is_cmp(op)){
        int e; // expected
        if(a.s == 2 || b.s == 2 || (a.s && a.s == b.s)) e = 2;
        else if(a.s || b.s){ i128 x = a.s ? a.s * HUGE_ : a.v, y = b.s ? b.s * HUGE_ : b.v; e = (int)exact(op, x, y, 0, 0).v; }
        else e = (int)exact(op, a.v, b.v, 0, 0).v;
        ++feature[verdict == 2 ? "verdict:indeterminate" : verdict ? "verdict:true" : "verdict:false"];
        if(verdict != e) fail(id, "wrong-verdict", in(), "got " + std::to_string(verdict) + ", expected " + std::to_string(e) + " (2 = indeterminate)");
        return;
    }
    Want q = want(op, a, b, t);
    int got = o.code == 0 ? W_V : o.code == POS ? W_P : o.code == NEGO ? W_N : W_U;
    ++feature[got == W_V ? "result:value" : got == W_P ? "result:+inf" : got == W_N ? "result:-inf" : "result:undefined"];
    bool bad = !(got & q.m) || (got == W_V && q.v != HUGE_ && o.v != q.v);
    if(bad) fail(id, got == W_V ? "wrong-value" : q.m == W_V ? "spurious-error" : "wrong-state", in(),
        (o.code ? std::string("error ") + codename(o.code) : "value " + str(o.v)) + ", expected " + (q.m & W_V ? "value " + str(q.v) + " " : "") + (q.m & W_P ? "+inf " : "") + (q.m & W_N ? "-inf " : "") + (q.m & W_U ? "undefined" : ""));
    if(total.n % 200003 == 11) sample(std::string(id) + ": " + in() + " -> " + (o.code ? codename(o.code) : str(o.v)));
}
template<class T> void ext_type(const char * name, int nrand){
    const TInfo t = tinfo<T>();
    for(int op = ADD; op <= NE; ++op){
        std::string id = std::string("checked_result<") + name + "> " + opname(op); progress(id); Rng r(seed ^ hash_str(id.c_str()));
        bool un = op == NEG || op == NOT;
        std::vector<Ext> X; for(int c = 1; c <= 10; ++c) X.push_back(ex(c));
        std::vector<i128> A = values(t.lo, t.hi, r, nrand, un ? 70000 : 300), B = A;
        if(op == SHL || op == SHR){ if(t.bits > 8) B.clear(); for(int k = -t.bits - 3; k <= t.bits + 3; ++k) add_clip(B, k, t.lo, t.hi); B.push_back(t.lo); B.push_back(t.hi); add_clip(B, 1000, t.lo, t.hi); add_clip(B, t.lo + 1, t.lo, t.hi); uniq(B); }
        std::vector<Ext> EB = X; for(i128 v : B) EB.push_back(ev(v));
        std::vector<Ext> EA = X; for(i128 v : A) EA.push_back(ev(v));
        if(un) EB.assign(1, ev(0));
        Site s; s.op = op; s.t = s.u = s.r = t;
        for(auto & a : EA){
            for(auto & b : EB) ext_judge<T>(id.c_str(), op, a, b, t);
            if(!un && t.bits > 8 && a.s == 0 && !is_cmp(op)){ std::vector<i128> V; directed(s, a.v, V); for(i128 v : V) if(v >= t.lo && v <= t.hi) ext_judge<T>(id.c_str(), op, a, ev(v), t); }
            if(fails_in_site > 6) break;
        }
        ++feature[std::string("op:") + opname(op)];
    }
}
} // mon
#endif
