// Interval arithmetic against the set of contained points (C13).
#ifndef VF_IVAL_HPP
#define VF_IVAL_HPP
#include "ext.hpp"
#include <boost/safe_numerics/interval.hpp>
namespace mon {
template<class I> I iop(int op, const I & x, const I & y){
    switch(op){
    case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case DIV: return x / y;
    case MOD: return x % y; case SHL: return x << y; case SHR: return x >> y; case OR: return x | y; default: return x & y;
    }
}
// a bound of an interval, either built-in or extended
template<class T> Ext bnd(const T & t){ return ev((i128)t); }
template<class T> Ext bnd(const sn::checked_result<T> & t){ Outcome o; take(t, o); return o.code ? ex(o.code) : ev(o.v); }
template<class R> struct mkr { static R f(const Ext & e){ return (R)e.v; } using base = R; };
template<class T> struct mkr<sn::checked_result<T>> { static sn::checked_result<T> f(const Ext & e){ return mk<T>(e); } using base = T; };

struct Iv { Ext l, u; };
inline std::string show(const Iv & i){ return "[" + show(i.l) + "," + show(i.u) + "]"; }
inline bool has(const Iv & i, i128 p){ return (i.l.s || i.l.v <= p) && (i.u.s || p <= i.u.v); }   // operands: l is a value or -inf, u a value or +inf
// may the result interval contain p? (exceptional bound: -inf/undefined below = unbounded, +inf below = above max, and mirrored)
inline bool covers(const Iv & i, i128 p, const TInfo & t){
    bool l = i.l.s == 0 ? p >= i.l.v : i.l.s == 1 ? p > t.hi : true;
    bool u = i.u.s == 0 ? p <= i.u.v : i.u.s == -1 ? p < t.lo : true;
    return l && u;
}
inline std::vector<i128> points(const Iv & i, const TInfo & t, Rng & r, int nrand, i128 all_below){
    std::vector<i128> v;
    i128 lo = i.l.s ? t.lo : i.l.v, hi = i.u.s ? t.hi : i.u.v;
    if(hi - lo < all_below) for(i128 p = lo; p <= hi; ++p) v.push_back(p);
    else {
        for(int d = 0; d < 2; ++d){ add_clip(v, lo + d, lo, hi); add_clip(v, hi - d, lo, hi); }
        for(int p = -2; p <= 2; ++p) add_clip(v, p, lo, hi);
        for(int k = 0; k < nrand; ++k) v.push_back(r.range(lo, hi));
    }
    if(i.l.s) for(i128 d : {1, 2, 70, 1000}) v.push_back(t.lo - d);
    if(i.u.s) for(i128 d : {1, 2, 70, 1000}) v.push_back(t.hi + d);
    uniq(v); return v;
}
template<class R> void ival_pair(const std::string & id, int op, const Iv & a, const Iv & b, const TInfo & t, Rng & r, bool plain, i128 all){
    using I = sn::interval<R>;
    Iv q; bool ran = true;
    Outcome o; observe([&](Outcome &){
        const I x(mkr<R>::f(a.l), mkr<R>::f(a.u)), y(mkr<R>::f(b.l), mkr<R>::f(b.u));
        const I z = iop(op, x, y); q.l = bnd(z.l); q.u = bnd(z.u); }, o);
    auto in = [&]{ return show(a) + " " + opname(op) + " " + show(b); };
    if(o.k != VALUE){ count(o, true); fail(id, "undefined-behaviour", in(), show(o)); return; }
    if(op == AND || op == OR){
        for(i128 p : points(a, t, r, 6, all)) {
            count(o, true); bool inb = has(b, p);
            if(op == OR){ if(!covers(q, p, t)) fail(id, "point-lost", in() + " point " + str(p), "result " + show(q)); }
            else if(inb && !covers(q, p, t)) fail(id, "point-lost", in() + " point " + str(p), "result " + show(q));
        }
        for(i128 p : points(b, t, r, 6, all)){ count(o, true);
            if(op == OR ? !covers(q, p, t) : has(a, p) && !covers(q, p, t)) fail(id, "point-lost", in() + " point " + str(p), "result " + show(q)); }
        // nothing extra
        i128 la = a.l.s ? -HUGE_ : a.l.v, lb = b.l.s ? -HUGE_ : b.l.v, ua = a.u.s ? HUGE_ : a.u.v, ub = b.u.s ? HUGE_ : b.u.v;
        i128 el = op == OR ? std::min(la, lb) : std::max(la, lb), eu = op == OR ? std::max(ua, ub) : std::min(ua, ub);
        i128 gl = q.l.s ? q.l.s * HUGE_ : q.l.v, gu = q.u.s ? q.u.s * HUGE_ : q.u.v;
        if(gl != el || gu != eu) fail(id, "wrong-bounds", in(), "result " + show(q));
        (void)ran; return;
    }
    for(i128 x : points(a, t, r, 5, all)) for(i128 y : points(b, t, r, 5, all)){
        if((op == DIV || op == MOD) && y == 0) continue;
        i128 p;
        if(op == SHL || op == SHR){ i128 c = op == SHL ? y : -y; p = x == 0 ? 0 : c >= 0 ? (c > 100 ? (x < 0 ? -HUGE_ : HUGE_) : sat_mul(x, (i128)1 << (int)c)) : floor_shr(x, -c); }
        else p = exact(op, x, y, 0, 0).v;
        if(plain && (p < t.lo || p > t.hi)) continue;
        count(o, p != x && p != y);
        if(!covers(q, p, t)){ fail(id, "point-lost", in() + " points " + str(x) + ", " + str(y), "point result " + str(p) + ", interval " + show(q)); return; }
    }
    ++feature[q.l.s || q.u.s ? "result:extended-bound" : "result:finite"];
    if(total.n % 100003 < 20) sample(id + ": " + in() + " -> " + show(q));
}
template<class I> void ieq(const I & x, const I & y, int & eq, int & ne, std::true_type){ eq = (x == y); ne = (x != y); }
template<class I> void ieq(const I &, const I &, int &, int &, std::false_type){}   // not offered for extended bounds
template<class R> void ival_pred(const std::string & id, const Iv & a, const Iv & b, const TInfo & t, Rng & r, i128 all){
    using I = sn::interval<R>;
    int inc = 9, exc = 9, isec = 9, lt = 9, gt = 9, le = 9, ge = 9, eq = 9, ne = 9;
    std::string in = show(a) + " ? " + show(b);
    Outcome o; observe([&](Outcome &){
        const I x(mkr<R>::f(a.l), mkr<R>::f(a.u)), y(mkr<R>::f(b.l), mkr<R>::f(b.u));
        inc = tri(x.includes(y)); exc = tri(x.excludes(y)); isec = tri(sn::intersect(x, y));
        lt = tri(x < y); gt = tri(x > y); le = tri(x <= y); ge = tri(x >= y); ieq(x, y, eq, ne, std::is_integral<R>()); }, o);
    if(o.k != VALUE){ count(o, true); fail(id, "undefined-behaviour", in, show(o)); return; }
    i128 la = a.l.s ? -HUGE_ : a.l.v, lb = b.l.s ? -HUGE_ : b.l.v, ua = a.u.s ? HUGE_ : a.u.v, ub = b.u.s ? HUGE_ : b.u.v;
    bool fin = !a.l.s && !a.u.s && !b.l.s && !b.u.s;
    // an infinite bound stands for an unknown value beyond the limit, so two of them on the same side have no known order
    auto chk = [&](const char * n, int got, bool t1, bool f1, bool need){   // t1: true is sound, f1: false is sound
        count(o, true); ++feature[got == 2 ? "verdict:indeterminate" : got ? "verdict:true" : "verdict:false"];
        if((got == 1 && !t1) || (got == 0 && !f1)) fail(id, "wrong-verdict", std::string(n) + " " + in, got ? "true" : "false");
        else if(got == 2 && need) fail(id, "needless-indeterminate", std::string(n) + " " + in, "bounds decide this");
    };
    bool knownU = !(a.u.s && b.u.s), knownL = !(a.l.s && b.l.s);
    chk("includes", inc, ua >= ub && la <= lb && knownU && knownL, (knownU && ua < ub) || (knownL && la > lb), fin);
    chk("excludes", exc, ub < la || ua < lb, !(ub < la || ua < lb), fin);
    chk("intersect", isec, ua >= lb && la <= ub, !(ua >= lb && la <= ub), fin);
    chk("<", lt, ua < lb, la >= ub, ua < lb || la > ub);
    chk(">", gt, la > ub, ua <= lb, ua < lb || la > ub);
    chk("<=", le, ua <= lb, la > ub, ua < lb || la > ub);
    chk(">=", ge, la >= ub, ua < lb, ua < lb || la > ub);
    if(fin && eq != 9){ chk("==", eq, la == lb && ua == ub, !(la == lb && ua == ub), true); chk("!=", ne, !(la == lb && ua == ub), la == lb && ua == ub, true); }
    for(i128 p : points(b, t, r, 3, all)){
        if(p < t.lo || p > t.hi) continue;
        int pi = 9, pe = 9; Outcome q; observe([&](Outcome &){
            const I x(mkr<R>::f(a.l), mkr<R>::f(a.u)); pi = tri(x.includes(mkr<R>::f(ev(p)))); pe = tri(x.excludes(mkr<R>::f(ev(p)))); }, q);
        if(q.k != VALUE){ fail(id, "undefined-behaviour", in + " point " + str(p), show(q)); return; }
        chk(("includes " + str(p) + " in ").c_str(), pi, has(a, p), !has(a, p), true);
        chk(("excludes " + str(p) + " in ").c_str(), pe, !has(a, p), has(a, p), true);
    }
}
inline Iv iv(i128 l, i128 u){ Iv i; i.l = ev(l); i.u = ev(u); return i; }
// do all corner results of a plain interval operation fit?
inline bool plain_ok(int op, const Iv & a, const Iv & b, const TInfo & t){
    if(op == DIV && b.l.v <= 0 && b.u.v >= 0) return false;
    if((op == SHL || op == SHR) && (b.l.v < 0 || b.u.v >= t.bits - 1)) return false;
    if(op == SHL && a.l.v < 0) return false;
    auto f = [&](i128 p){ return p >= t.lo && p <= t.hi; };
    if(op == MOD) return t.sgn ? b.l.v > t.lo && f(-b.l.v) && b.u.v >= 0 - t.hi : true;
    if(op == SUB) return f(a.l.v - b.u.v) && f(a.u.v - b.l.v);
    if(op == ADD) return f(a.l.v + b.l.v) && f(a.u.v + b.u.v);
    if(op == MUL || op == DIV || op == SHL) for(i128 x : {a.l.v, a.u.v}) for(i128 y : {b.l.v, b.u.v}) if(!f(exact(op, x, y, 0, 0).v)) return false;
    return true;
}
static const int IOPS[] = { ADD, SUB, MUL, DIV, MOD, SHL, SHR, OR, AND };
template<class R> Iv rnd_iv(Rng & r, const TInfo & t, bool ext, int op, bool second){
    for(;;){
        auto val = [&]() -> i128 {
            if(second && (op == SHL || op == SHR) && r.below(8)) return t.sgn && ext ? r.range(-t.bits - 2, t.bits + 2) : r.range(0, t.bits + (ext ? 2 : -2));
            switch(r.below(5)){
            case 0: { i128 c[] = {t.lo, t.lo + 1, t.hi, t.hi - 1, 0, 1, t.sgn ? -1 : 2}; return c[r.below(7)]; }
            case 1: return r.range(t.lo, t.hi);
            case 2: return r.range(t.sgn ? -9 : 0, 9);
            default: { int b = 1 + (int)r.below(t.bits - 1); i128 x = (i128)(r.next() >> (64 - b)); if(t.sgn && r.below(2)) x = -x; return x; } } };
        i128 x = val(), y = val(); if(x > y) std::swap(x, y);
        Iv i = iv(x, y);
        if(ext && r.below(5) == 0) i.l = ex(NEGO);
        if(ext && r.below(5) == 0) i.u = ex(POS);
        if(op == DIV && second && has(i, 0)) continue;
        return i;
    }
}
// exhaustive over all intervals with bounds in [lo,hi]
template<class R> void ival_small(const char * name, int m){
    const TInfo t = tinfo<R>(); Rng r(seed); i128 lo = t.sgn ? -m : 0;
    for(int op : IOPS){
        std::string id = std::string("interval<") + name + "> small " + opname(op); progress(id);
        for(i128 a = lo; a <= m; ++a) for(i128 b = a; b <= m; ++b) for(i128 c = lo; c <= m; ++c) for(i128 d = c; d <= m; ++d){
            Iv x = iv(a, b), y = iv(c, d);
            if(!plain_ok(op, x, y, t)) continue;
            if(op == SUB && !t.sgn && a < d) continue;
            ival_pair<R>(id, op, x, y, t, r, true, 100);
        }
        ++feature[std::string("op:") + opname(op)];
    }
    std::string id = std::string("interval<") + name + "> small predicates"; progress(id);
    for(i128 a = lo; a <= m; ++a) for(i128 b = a; b <= m; ++b) for(i128 c = lo; c <= m; ++c) for(i128 d = c; d <= m; ++d) ival_pred<R>(id, iv(a, b), iv(c, d), t, r, 100);
}
template<class R> void ival_random(const char * name, int n, bool ext){
    using B = typename mkr<R>::base;
    const TInfo t = tinfo<B>();
    for(int op : IOPS){
        std::string id = std::string("interval<") + name + "> " + opname(op); progress(id); Rng r(seed ^ hash_str(id.c_str()));
        for(int k = 0; k < n && fails_in_site < 6; ++k){
            Iv x = rnd_iv<R>(r, t, ext, op, false), y = rnd_iv<R>(r, t, ext, op, true);
            if(!ext && !plain_ok(op, x, y, t)) continue;
            ival_pair<R>(id, op, x, y, t, r, !ext, t.bits == 8 ? 40 : 5);
        }
    }
    std::string id = std::string("interval<") + name + "> predicates"; progress(id); Rng r(seed ^ hash_str(id.c_str()));
    for(int k = 0; k < n && fails_in_site < 6; ++k){
        Iv x = rnd_iv<R>(r, t, ext, 0, false), y = rnd_iv<R>(r, t, ext, 0, true);
        if(r.below(3) == 0 && !x.u.s && !y.u.s){ i128 d = r.range(-2, 2); i128 l = x.u.v + d; if(l >= t.lo && l <= t.hi && l <= y.u.v) y.l = ev(l); }
        if(r.below(3) == 0){ if(r.below(2)) y.l = x.l; else y.u = x.u; if(!y.l.s && !y.u.s && y.l.v > y.u.v) std::swap(y.l, y.u); }
        ival_pred<R>(id, x, y, t, r, 3);
    }
}
template<class R> void ival_default(const char * name){
    std::string id = std::string("make_interval<") + name + ">"; progress(id); const TInfo t = tinfo<R>();
    const sn::interval<R> a, b = sn::make_interval<R>(), c = sn::make_interval(R(0)); Outcome o; o.k = VALUE;
    for(auto & i : {a, b, c}){ count(o, true); if((i128)i.l != t.lo || (i128)i.u != t.hi) fail(id, "wrong-bounds", "", "[" + str((i128)i.l) + "," + str((i128)i.u) + "]"); }
}
} // mon
#endif
