// numeric_limits, literals and storage (C21).
#ifndef VF_LIM_HPP
#define VF_LIM_HPP
#include "mon.hpp"
#include <sstream>
namespace mon {
inline void check(bool ok, const std::string & id, const char * kind, const std::string & in, const std::string & d){
    ++total.n; ++total.nontriv; ++total.val; ++feature[kind]; if(!ok) fail(id, std::string("wrong-") + kind, in, d);
    if(total.n % 2003 == 11) sample(id + ": " + kind + " " + in + " " + d);
}
template<class F> Outcome run(F f){ Outcome o; observe([&](Outcome & q){ q.v = f(); }, o); count(o, true); return o; }
inline void expect(const Outcome & o, i128 v, const std::string & id, const char * kind, const std::string & in){ ++feature[kind]; if(o.k != VALUE || o.v != v) fail(id, std::string("wrong-") + kind, in, show(o) + ", expected " + str(v)); }
template<class T> void traits(const std::string & id){
    using L = std::numeric_limits<T>; using CL = std::numeric_limits<const T>; using B = typename sn::base_type<T>::type; using N = std::numeric_limits<B>;
#define VF_TR(m) check(L::m == N::m && CL::m == N::m, id, "trait", #m, std::to_string((int)L::m) + ", base type has " + std::to_string((int)N::m));
    VF_TR(is_specialized) VF_TR(is_signed) VF_TR(is_integer) VF_TR(is_exact) VF_TR(has_infinity) VF_TR(has_quiet_NaN) VF_TR(has_signaling_NaN) VF_TR(has_denorm) VF_TR(has_denorm_loss)
    VF_TR(round_style) VF_TR(is_iec559) VF_TR(is_bounded) VF_TR(is_modulo) VF_TR(digits) VF_TR(digits10) VF_TR(max_digits10) VF_TR(radix) VF_TR(min_exponent) VF_TR(min_exponent10)
    VF_TR(max_exponent) VF_TR(max_exponent10) VF_TR(traps) VF_TR(tinyness_before)
#undef VF_TR
#define VF_TF(m) check((i128)sn::base_value(L::m()) == (i128)N::m(), id, "trait", #m "()", str((i128)sn::base_value(L::m())) + ", base type has " + str((i128)N::m()));
    VF_TF(epsilon) VF_TF(round_error) VF_TF(infinity) VF_TF(quiet_NaN) VF_TF(denorm_min)
#undef VF_TF
    check(sn::is_safe<T>::value, id, "trait", "is_safe", "");
}
template<class T> void order(const std::string &, std::true_type){}   // literals without policies can't be compared with each other
template<class T> void order(const std::string & id, std::false_type){ using L = std::numeric_limits<T>;
    expect(run([&]{ return (i128)(L::min() <= L::max()); }), 1, id, "limit", "min <= max"); expect(run([&]{ return (i128)(L::max() < L::min()); }), 0, id, "limit", "max < min"); }
template<class T> void limits(const std::string & id, i128 lo, i128 hi){
    using L = std::numeric_limits<T>; using B = typename sn::base_type<T>::type;
    constexpr auto cmin = L::min(); constexpr auto cmax = L::max(); constexpr auto clow = L::lowest();
    check(std::is_same<typename std::decay<decltype(L::min())>::type, T>::value && std::is_same<typename std::decay<decltype(L::max())>::type, T>::value, id, "limit", "type", "min() and max() are of the type itself");
    check(raw(cmin) == lo, id, "limit", "min", str(raw(cmin)) + ", declared " + str(lo)); check(raw(clow) == lo, id, "limit", "lowest", str(raw(clow)) + ", declared " + str(lo)); check(raw(cmax) == hi, id, "limit", "max", str(raw(cmax)) + ", declared " + str(hi));
    check(raw(std::numeric_limits<const T>::min()) == lo && raw(std::numeric_limits<volatile T>::max()) == hi && raw(std::numeric_limits<const volatile T>::lowest()) == lo, id, "limit", "const volatile", "");
    expect(run([&]{ return raw(L::min()); }), lo, id, "limit", "min at run time"); expect(run([&]{ return raw(L::max()); }), hi, id, "limit", "max at run time"); expect(run([&]{ return raw(L::lowest()); }), lo, id, "limit", "lowest at run time");
    expect(run([&]{ return (i128)static_cast<B>(L::min()); }), lo, id, "limit", "min as base type"); expect(run([&]{ return (i128)static_cast<B>(L::max()); }), hi, id, "limit", "max as base type");
    order<T>(id, std::integral_constant<bool, std::is_void<typename sn::get_promotion_policy<T>::type>::value>());
}
// a safe type declared with these bounds
template<class T> void type_site(const char * name, i128 lo, i128 hi, int sgn){
    using B = typename sn::base_type<T>::type; using N = std::numeric_limits<B>; std::string id = name; progress(id); Rng r(seed ^ hash_str(name));
    traits<T>(id); limits<T>(id, lo, hi);
    check((i128)N::min() <= lo && (i128)N::max() >= hi, id, "storage", "bounds", std::to_string(sizeof(B) * 8) + " bits"); check(std::is_signed<B>::value == (sgn != 0), id, "storage", "signedness", "");
    check(sizeof(T) == sizeof(B) || sizeof(T) > sizeof(B), id, "storage", "size", "");
    std::vector<i128> V = values(lo, hi, r, thorough ? 60 : 8, thorough ? 300 : 20); V.push_back(lo); V.push_back(hi);
    for(i128 v : V){ expect(run([&]{ T x = maker<T>::make(v); return raw(x); }), v, id, "stored value", str(v)); if(V.size() > 2 && total.n > (thorough ? 4000000u : 600000u)) break; }
    // the limits are the tight bounds of what can be stored
}
// a declared range, its bounds only
template<class T> void bound_site(const char * name, i128 lo, i128 hi){
    using B = typename sn::base_type<T>::type; using N = std::numeric_limits<B>; std::string id = name; progress(id);
    check((i128)N::min() <= lo && (i128)N::max() >= hi, id, "storage", "bounds", std::to_string(sizeof(B) * 8) + " bits");
    check(raw(std::numeric_limits<T>::min()) == lo && raw(std::numeric_limits<T>::max()) == hi, id, "limit", "min, max", "");
    for(i128 v : {lo, hi, (lo + hi) / 2}) expect(run([&]{ T x = maker<T>::make(v); return raw(x); }), v, id, "stored value", str(v));
}
template<class T, class Q> void outside(const char * name, i128 v, const char * kind){ Q q = (Q)v; Outcome o = run([&]{ T x(q); return raw(x); }); check(o.k == ERROR, name, "bound", kind, str(v) + ": " + show(o));
    o = run([&]{ T x = maker<T>::make(raw(std::numeric_limits<T>::min())); x = q; return raw(x); }); check(o.k == ERROR, name, "bound", "assigned", str(v) + ": " + show(o)); }
template<class L, class P> struct lit_with { using type = P; };
template<class L> struct lit_with<L, void> { using type = sn::native; };
template<class L, class X> void lit_is(const std::string & id, const char * kind, const X & x, i128 v){
    expect(run([&]{ return raw(x); }), v, id, kind, "base_value");
    expect(run([&]{ typename sn::base_type<X>::type b = x; return (i128)b; }), v, id, kind, "implicit conversion");
    expect(run([&]{ std::ostringstream s; s << x; return parse(s.str().c_str()); }), v, id, kind, "printed");
    check(raw(std::numeric_limits<X>::min()) == v && raw(std::numeric_limits<X>::max()) == v && raw(std::numeric_limits<X>::lowest()) == v, id, kind, "limits", "");
}
template<class L> void lit_site(const char * name, i128 v){
    std::string id = name; progress(id); using B = typename sn::base_type<L>::type; constexpr L l; constexpr B cb = l; constexpr B cv = sn::base_value(l);
    check((i128)cb == v && (i128)cv == v, id, "literal", "constant", str((i128)cb));
    traits<L>(id); limits<L>(id, v, v); lit_is<L>(id, "literal", l, v); lit_is<L>(id, "literal", L(), v); L copy = l; lit_is<L>(id, "literal", copy, v);
    using PP = typename lit_with<L, typename sn::get_promotion_policy<L>::type>::type; using SB = sn::safe<B, PP>;
    expect(run([&]{ SB x(l); return raw(x); }), v, id, "literal", "to safe"); expect(run([&]{ SB x = l; return raw(x); }), v, id, "literal", "to safe, implicitly");
    expect(run([&]{ SB x((B)0); x = l; return raw(x); }), v, id, "literal", "assigned"); expect(run([&]{ return (i128)(SB((B)v) == l); }), 1, id, "literal", "equal to its value"); expect(run([&]{ return (i128)(l != SB((B)v)); }), 0, id, "literal", "different from its value");
    expect(run([&]{ return raw(SB((B)0) + l); }), v, id, "literal", "0 + literal"); expect(run([&]{ return raw(l * SB((B)1)); }), v, id, "literal", "literal * 1"); expect(run([&]{ return (i128)(l < SB((B)v)); }), 0, id, "literal", "less than its value");
    lit_is<L>(id, "unary plus", +l, v);
}
template<class L, class Q> void lit_as(const char * name, i128 v){ constexpr L l; constexpr Q q = l; check((i128)q == v, name, "literal", "constant of another type", str((i128)q)); expect(run([&]{ return (i128)static_cast<Q>(l); }), v, name, "literal", "as another type"); }
template<class L> void lit_minus(const char * name, i128 v){ std::string id = name; progress(id); constexpr L l; constexpr auto m = -l; check(raw(m) == -v, id, "unary minus", "constant", str(raw(m))); lit_is<L>(id, "unary minus", -l, -v); lit_is<L>(id, "double minus", - -l, v);
    using PP = typename lit_with<L, typename sn::get_promotion_policy<L>::type>::type; expect(run([&]{ return raw(sn::safe<long long, PP>(0) + -l); }), -v, id, "unary minus", "0 + -literal"); }
template<class L> void lit_not(const char * name, i128 v){ std::string id = name; progress(id); constexpr L l; constexpr auto m = ~l; check(raw(m) == ~v, id, "complement", "constant", str(raw(m))); lit_is<L>(id, "complement", ~l, ~v); lit_is<L>(id, "double complement", ~~l, v); }
template<class X> void lit_macro(const char * name, const X & x, i128 v){ std::string id = name; progress(id); lit_is<X>(id, "make_safe_literal", x, v); lit_is<X>(id, "make_safe_literal", +x, v); traits<X>(id); }
}
#endif
