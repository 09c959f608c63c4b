// one translation unit of the C19 program; TU is its number, HEADERS the order of inclusion
#include HEADERS
#include "cat.hpp"
#include <stdexcept>
namespace { namespace tu {
namespace sn = boost::safe_numerics; using E = sn::safe_numerics_error; using A = sn::safe_numerics_actions;
const E codes[] = {E::success,E::positive_overflow_error,E::negative_overflow_error,E::domain_error,E::range_error,E::precision_overflow_error,E::underflow_error,E::negative_value_shift,E::negative_shift,E::shift_too_large,E::uninitialized_value};
const A conds[] = {A::no_action,A::uninitialized_value,A::arithmetic_error,A::implementation_defined_behavior,A::undefined_behavior};
std::error_code make(int c){ std::error_code e = codes[c]; return e; }
int ran = 0;
template<int K> struct Rec { constexpr Rec() = default; void operator()(const E &, const char *){ ran |= 1 << K; } };
using RP = sn::exception_policy<Rec<2>, Rec<3>, Rec<4>, Rec<1>>;
using TP = sn::exception_policy<sn::throw_exception, sn::throw_exception, sn::throw_exception, sn::throw_exception>;
template<class P> void disp(int c){
    switch(c){
    case 1: sn::dispatch<P, E::positive_overflow_error>("m"); break; case 2: sn::dispatch<P, E::negative_overflow_error>("m"); break; case 3: sn::dispatch<P, E::domain_error>("m"); break;
    case 4: sn::dispatch<P, E::range_error>("m"); break; case 5: sn::dispatch<P, E::precision_overflow_error>("m"); break; case 6: sn::dispatch<P, E::underflow_error>("m"); break;
    case 7: sn::dispatch<P, E::negative_value_shift>("m"); break; case 8: sn::dispatch<P, E::negative_shift>("m"); break; case 9: sn::dispatch<P, E::shift_too_large>("m"); break; case 10: sn::dispatch<P, E::uninitialized_value>("m"); break;
    }
}
bool can(int c, int path){ return c > 0 && (path || c == 1 || c == 2 || c == 3 || c == 8 || c == 9 || c == 10); }
void raise(int c, int path){
    volatile int big = 2147483647, zero = 0, neg = -1, m99 = 99;
    if(path == 1){ disp<TP>(c); return; }
    if(path == 2) throw std::system_error(codes[c], "m");
    using I = sn::safe<int, sn::native, TP>;
    switch(c){
    case 1: (void)(I(big) + 1); break; case 2: (void)(I(-big) - 2); break; case 3: (void)(I(1) / I(zero)); break;
     case 8: (void)(I(1) << I(neg)); break; case 9: (void)(I(1) << I(m99)); break; case 10: { I x; (void)x; } break;
    }
}
bool is(const std::error_code & e, int c){ bool a = e == codes[c], b = codes[c] == e; return a && b && !(e != codes[c]); }
bool isnt(const std::error_code & e, int c){ return e != codes[c] && codes[c] != e && !(e == codes[c]); }
std::error_condition mkcond(int c){ return std::error_condition(static_cast<int>(conds[c]), sn::safe_numerics_actions_category); }
inline int indexof(sn::safe_numerics_actions a){ int i = 0; while(conds[i] != a) ++i; return i; }
// comparison with the enumerator of the action itself; -1: the library offers no conversion to a condition
template<class A> auto direct(const std::error_code & e, A a, int) -> decltype(make_error_condition(a), 0){
    std::error_condition k = a; if(k != mkcond(indexof(a))) return 8;
    return (e == a) + ((a == e) << 1) + ((e != a) << 2);
}
template<class A> int direct(const std::error_code &, A, long){ return -1; }
bool cond(const std::error_code & e, int c){
    std::error_condition k = mkcond(c); bool a = e == k, b = k == e, d = sn::safe_numerics_actions_category.equivalent(e, static_cast<int>(conds[c]));
    int r = direct(e, conds[c], 0);
    if(r == -1) throw std::logic_error("the action cannot be compared with the code");
    if(a != b || a != d || (e != k) == a || r != (a ? 3 : 4)) throw std::logic_error("inconsistent comparison");
    return a;
}
int taken(int c){ ran = 0; if(c) disp<RP>(c); return ran; }
std::string msg(int c){ return make(c).message(); }
std::string name(){ return make(1).category().name(); }
const std::error_category * cat(){ return &make(1).category(); }
const std::error_category * acat(){ return &mkcond(1).category(); }
struct Early { std::error_code e; Early(){ try { raise(1 + TU % 3, TU % 2); } catch(const std::system_error & x){ e = x.code(); } } } early_obj;
std::error_code early(){ return early_obj.e; }
} }
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
extern "C" const Api * VF_CAT(api_, TU)(){ static const Api a = { tu::make, tu::raise, tu::can, tu::is, tu::isnt, tu::cond, tu::taken, tu::msg, tu::name, tu::cat, tu::acat, tu::mkcond, tu::early }; return &a; }
