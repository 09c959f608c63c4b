// What the library prints for diagnosis (C24).
#ifndef VF_OUT_HPP
#define VF_OUT_HPP
#include "mon.hpp"
#include <algorithm>
#include <sstream>
#include <iomanip>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/range_value.hpp>
namespace mon {
// formatting flags, and the text of a number under them
struct Fmt { int base; bool showpos, showbase, upper; };
inline std::string num_text(i128 v, const Fmt & f){
    if(f.base == 10) return (f.showpos && v >= 0 ? "+" : "") + str(v);
    std::string d; unsigned long long u = (unsigned long long)v; const unsigned b = (unsigned)f.base;
    do { unsigned k = (unsigned)(u % b); d += (char)(k < 10 ? '0' + k : (f.upper ? 'A' : 'a') + (k - 10)); u /= b; } while(u);
    std::reverse(d.begin(), d.end());
    if(f.showbase && v) d = (f.base == 8 ? "0" : f.upper ? "0X" : "0x") + d;
    return d;
}
template<class O> void apply(O & os, const Fmt & f){
    os << (f.base == 16 ? std::hex : f.base == 8 ? std::oct : std::dec);
    if(f.showpos) os << std::showpos; if(f.showbase) os << std::showbase; if(f.upper) os << std::uppercase;
}
inline Fmt fmt(Rng & r, bool negative, bool sgn){
    Fmt f; int k = (int)r.below(4); f.base = negative || k < 2 ? 10 : k == 2 ? 16 : 8; f.showpos = sgn && f.base == 10 && r.below(4) == 0; f.showbase = r.below(2) && f.base != 10; f.upper = r.below(4) == 0 && f.base == 16; return f;
}
inline std::string fname(const Fmt & f){ return std::string(f.base == 10 ? "dec" : f.base == 16 ? "hex" : "oct") + (f.showpos ? " showpos" : "") + (f.showbase ? " showbase" : "") + (f.upper ? " uppercase" : ""); }
template<class C> std::string narrow(const std::basic_string<C> & s){ std::string o; for(C c : s) o += c >= 32 && c < 127 ? (char)c : '?'; return o; }
// prints X under f to a stream of C and compares
template<class C, class X> void printed(const std::string & id, const char * kind, const X & x, const Fmt & f, const std::string & want, const std::string & in, bool keeps = true){
    std::basic_ostringstream<C> os; apply(os, f); auto fl = os.flags();
    Outcome o; observe([&](Outcome & q){ os << x; q.v = 0; }, o); count(o, true); ++feature[kind]; ++feature[sizeof(C) > 1 ? "wide stream" : "narrow stream"]; ++feature[fname(f)];
    std::string got = narrow(os.str()), d = "printed '" + got + "', expected '" + want + "'";
    if(o.k != VALUE) fail(id, "printing-reports", in, show(o));
    else if(got != want) fail(id, std::string("wrong-") + kind, in + " " + fname(f), d);
    else if(keeps && os.flags() != fl) fail(id, "format-changed", in + " " + fname(f), d);
    if(total.n % 1009 == 3) sample(id + ": " + in + " " + fname(f) + " -> " + got);
}
template<class T, class C> void range_out(const char * name, int nrand){
    std::string id = name; progress(id); Rng r(seed ^ hash_str(name)); TInfo t = tinfo<T>();
    i128 lo = raw(std::numeric_limits<T>::min()), hi = raw(std::numeric_limits<T>::max());
    if(lo != t.lo || hi != t.hi) fail(id, "wrong-limits", "", str(lo) + ".." + str(hi));
    for(i128 v : values(t.lo, t.hi, r, nrand, 300)){
        const T x = maker<T>::make(v); Fmt f = fmt(r, t.lo < 0 || t.hi < 0, t.sgn);
        auto n = [&](i128 a){ return num_text(a, f); };
        printed<C>(id, "value", x, f, n(v), str(v));
        printed<C>(id, "range_value", make_range_value(x), f, "[" + n(t.lo) + "," + n(t.hi) + "]" + n(v), str(v));
        printed<C>(id, "interval", sn::make_interval<T>(), f, "[" + n(t.lo) + "," + n(t.hi) + "]", "interval of the type");
        printed<C>(id, "interval", sn::make_interval(x), f, "[" + n(t.lo) + "," + n(t.hi) + "]", "interval of the type of an object");
        if(t.lo >= 0){ Fmt h = f; h.base = 16; h.showpos = false; Fmt d = f; d.base = 10; auto m = [&](i128 a){ return num_text(a, h); };
            printed<C>(id, "result_display", make_result_display(x), f, "[" + m(t.lo) + "," + m(t.hi) + "]" + m(v) + "(" + num_text(v, d) + ")", str(v), false); }
        if(raw(x) != v) fail(id, "printing-alters", str(v), str(raw(x)));
    }
}
template<class R, class C> void prim_out(const char * name, int nrand){
    std::string id = name; progress(id); Rng r(seed ^ hash_str(name)); TInfo t = tinfo<R>();
    std::vector<i128> V = values(t.lo, t.hi, r, nrand, 300);
    for(i128 v : V){
        i128 w = V[(size_t)r.below(V.size())]; i128 a = std::min(v, w), b = std::max(v, w); Fmt f = fmt(r, a < 0, t.sgn);
        const sn::interval<R> i((R)a, (R)b);
        printed<C>(id, "interval", i, f, "[" + num_text(a, f) + "," + num_text(b, f) + "]", str(a) + ".." + str(b));
        const sn::checked_result<R> c((R)v); Fmt g = fmt(r, v < 0, t.sgn), z = g; g.showpos = z.showpos = false; 
        printed<C>(id, "checked_result", c, g, "0" + num_text(v, z), str(v));
        const sn::interval<sn::checked_result<R>> q(c, sn::checked_result<R>((R)w)); Fmt k = fmt(r, a < 0, t.sgn); k.showpos = false;
        printed<C>(id, "interval of results", q, k, "[0" + num_text(v, k) + ",0" + num_text(w, k) + "]", str(v) + ".." + str(w));
    }
}
template<class R> void error_out(const char * name){
    std::string id = name; progress(id); Rng r(seed ^ hash_str(name));
    static const char * const names[] = {"success", "positive_overflow_error", "negative_overflow_error", "domain_error", "range_error", "precision_overflow_error", "underflow_error", "negative_value_shift", "negative_shift", "shift_too_large", "uninitialized_value"};
    static const sn::safe_numerics_error codes[] = {sn::safe_numerics_error::success, sn::safe_numerics_error::positive_overflow_error, sn::safe_numerics_error::negative_overflow_error, sn::safe_numerics_error::domain_error, sn::safe_numerics_error::range_error,
        sn::safe_numerics_error::precision_overflow_error, sn::safe_numerics_error::underflow_error, sn::safe_numerics_error::negative_value_shift, sn::safe_numerics_error::negative_shift, sn::safe_numerics_error::shift_too_large, sn::safe_numerics_error::uninitialized_value};
    for(int k = 0; k < 11; ++k){
        Outcome o; std::string got; observe([&](Outcome & q){ const char * s = sn::literal_string(codes[k]); got = s ? s : "(null)"; q.v = 0; }, o); count(o, true); ++feature["literal_string"];
        if(o.k != VALUE || got != names[k]) fail(id, "wrong-name", names[k], o.k != VALUE ? show(o) : got);
        if(!k) continue;
        for(const char * m : {"a message", "", "division by zero", "converted value to low or negative"}){
            const sn::checked_result<R> c(codes[k], m); std::string text = sn::make_error_code(codes[k]).message();
            Fmt f = fmt(r, false, false); f.showbase = false;
            printed<char>(id, "checked_result error", c, f, "1" + text + ":" + m, names[k]);
            printed<char>(id, "interval of results", sn::interval<sn::checked_result<R>>(sn::checked_result<R>(0), c), f, "[00,1" + text + ":" + m + "]", names[k]);
        }
    }
}
template<class L, class C> void lit_print(const char * name, i128 v){
    std::string id = name; progress(id); Rng r(seed ^ hash_str(name)); L l;
    for(int k = 0; k < 6; ++k){ Fmt f = fmt(r, v < 0, tinfo<L>().sgn); std::string n = num_text(v, f); printed<C>(id, "literal", l, f, n, str(v)); printed<C>(id, "range_value", make_range_value(l), f, "[" + n + "," + n + "]" + n, str(v)); }
}
}
#endif
