// Monitor core: executes one library operation, turns whatever happens
// (value, reported error, UBSan trap / hardware fault, foreign exception) into
// an Outcome, and records per-site statistics and violations as JSON lines.
// Nothing in here depends on library internals: only public types, numeric_limits,
// base_value/base_type/is_safe traits and the error enum are used.
#ifndef VF_MON_HPP
#define VF_MON_HPP
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <system_error>
#include <type_traits>
#include <typeinfo>
#include <unistd.h>

#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/cpp.hpp>

typedef __int128 i128;
typedef unsigned __int128 u128;
namespace sn = boost::safe_numerics;

namespace mon {

static const i128 HUGE_ = (i128)1 << 126;

inline std::string str(i128 v){
    if(v >= HUGE_) return "+huge";
    if(v <= -HUGE_) return "-huge";
    if(v == 0) return "0";
    bool n = v < 0; u128 x = n ? -(u128)v : (u128)v;
    std::string s;
    while(x){ s.insert(s.begin(), char('0' + (int)(x % 10))); x /= 10; }
    return n ? "-" + s : s;
}
inline i128 parse(const char * s){
    bool n = false; if(*s == '-'){ n = true; ++s; }
    i128 v = 0; for(; *s >= '0' && *s <= '9'; ++s) v = v * 10 + (*s - '0');
    return n ? -v : v;
}
// floor / bit helpers
inline int bitlen(u128 x){ int n = 0; while(x){ ++n; x >>= 1; } return n; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next(){
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n){ return n ? next() % n : 0; }
    i128 range(i128 lo, i128 hi){ // inclusive
        u128 w = (u128)(hi - lo) + 1;
        u128 r = ((u128)next() << 64) | next();
        return lo + (i128)(r % w);
    }
};
inline uint64_t hash_str(const char * s){
    uint64_t h = 1469598103934665603ull;
    for(; *s; ++s){ h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}

enum Kind { VALUE = 0, ERROR = 1, TRAP = 2, OTHER = 3, ESCAPED = 4 };
struct Outcome {
    int k; i128 v; int code; std::string msg;
    Outcome() : k(OTHER), v(0), code(0) {}
};
inline const char * codename(int c){
    static const char * n[] = {"success","positive_overflow_error","negative_overflow_error","domain_error",
        "range_error","precision_overflow_error","underflow_error","negative_value_shift","negative_shift",
        "shift_too_large","uninitialized_value"};
    return c >= 0 && c <= 10 ? n[c] : "?";
}
// map library enumerators to the stable numbers above
inline int code_of(const std::error_code & e){
    using E = sn::safe_numerics_error;
    static const E order[] = {E::success,E::positive_overflow_error,E::negative_overflow_error,E::domain_error,
        E::range_error,E::precision_overflow_error,E::underflow_error,E::negative_value_shift,E::negative_shift,
        E::shift_too_large,E::uninitialized_value};
    for(int i = 0; i <= 10; ++i) if(static_cast<int>(order[i]) == e.value()) return i;
    return -1;
}
inline int code_of(sn::safe_numerics_error e){ return code_of(std::error_code(static_cast<int>(e), std::generic_category())); }
enum { POS = 1, NEGO = 2, DOM = 3, RANGE = 4, PREC = 5, UNDER = 6, NVS = 7, NS = 8, STL = 9, UNINIT = 10 };

inline std::string show(const Outcome & o){
    switch(o.k){
    case VALUE: return "value " + str(o.v);
    case ERROR: return std::string("error ") + codename(o.code);
    case TRAP: return std::string("undefined behaviour (signal ") + std::to_string(o.code) + ")";
    default: return "unexpected exception " + o.msg;
    }
}

extern sigjmp_buf jb; extern volatile sig_atomic_t armed;
inline void on_sig(int s){
    if(armed) siglongjmp(jb, s);
    static const char m[] = "{\"t\":\"crash\"}\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r;
    signal(s, SIG_DFL); raise(s);
}
inline void install(){
    static char stack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_sig; a.sa_flags = SA_NODEFER;
    for(int s : {SIGILL, SIGFPE, SIGSEGV, SIGABRT, SIGBUS, SIGTRAP}) sigaction(s, &a, 0);
}

typedef void (*exec2)(i128, i128, Outcome &);

// run f(o) under the monitor
template<class F> inline void observe(F && f, Outcome & o){
    o.k = OTHER; o.code = 0; o.v = 0;
    int s = sigsetjmp(jb, 0);
    if(s){ armed = 0; o.k = TRAP; o.code = s; return; }
    armed = 1;
#if !defined(__cpp_exceptions)
    f(o); armed = 0; o.k = VALUE;
#else
    try { f(o); armed = 0; o.k = VALUE; }
    catch(const std::system_error & e){
        armed = 0; o.code = code_of(e.code());
        if(o.code > 0 && std::strcmp(e.code().category().name(), "safe numerics error") == 0) o.k = ERROR;
        else { o.k = OTHER; o.msg = e.what(); }
    }
    catch(const std::exception & e){ armed = 0; o.k = OTHER; o.msg = e.what(); }
    catch(...){ armed = 0; o.k = OTHER; o.msg = "?"; }
#endif
}

// ---- type description -------------------------------------------------
struct TInfo { i128 lo, hi; int bits; bool sgn; bool safe; i128 blo, bhi; };
template<class T> struct basic { using type = typename sn::base_type<T>::type; };

template<class T> constexpr i128 raw(const T & t){ return (i128)sn::base_value(t); }

// unscoped enumerations with a given underlying type; as an operand such a value counts as what it is promoted to
template<class T> struct en { enum type : T {}; };
// an object which converts to an integer
template<class T> struct num { T v; constexpr operator T() const { return v; } };
template<class T, bool IsEnum> struct counts_as { using type = typename sn::base_type<T>::type; using lim = std::numeric_limits<T>; };
template<class T> struct counts_as<T, true> { using type = decltype(+std::declval<T>()); using lim = std::numeric_limits<typename std::underlying_type<T>::type>; };
template<class T> struct counts_as<num<T>, false> { using type = decltype(+std::declval<T>()); using lim = std::numeric_limits<T>; };

template<class T> TInfo tinfo(){
    using B = typename counts_as<T, std::is_enum<T>::value>::type; using L = typename counts_as<T, std::is_enum<T>::value>::lim;
    TInfo i;
    i.lo = raw(L::min());
    i.hi = raw(L::max());
    i.bits = (int)sizeof(B) * 8;
    i.sgn = std::is_signed<B>::value;
    i.safe = sn::is_safe<T>::value;
    i.blo = (i128)std::numeric_limits<B>::min();
    i.bhi = (i128)std::numeric_limits<B>::max();
    return i;
}
template<class T> struct maker {
    static T make(i128 v){ return T(static_cast<typename sn::base_type<T>::type>(v)); }
};
template<class T> struct maker<num<T>> { static num<T> make(i128 v){ return num<T>{static_cast<T>(v)}; } };
template<class S, S N, class P, class E> struct maker<sn::safe_literal_impl<S,N,P,E>> {
    static sn::safe_literal_impl<S,N,P,E> make(i128){ return sn::safe_literal_impl<S,N,P,E>(); }
};

// ---- records ------------------------------------------------------------
inline std::string esc(const std::string & s){
    std::string r; for(char c : s){ if(c == '"' || c == '\\'){ r += '\\'; r += c; } else if((unsigned char)c < 32){ char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else if((unsigned char)c > 126){ char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b; } else r += c; }
    return r;
}
struct Stats { unsigned long long n, nontriv, val, err, trap; Stats():n(0),nontriv(0),val(0),err(0),trap(0){} };
extern Stats total; extern unsigned long long nsites;
extern std::map<std::string,unsigned long long> feature; // named observations
extern int fails_in_site;
extern std::string prop;
extern uint64_t seed; extern bool thorough;

inline void fail(const std::string & site, const std::string & kind, const std::string & input, const std::string & detail){
    if(++fails_in_site > 6) return;
    printf("{\"t\":\"fail\",\"site\":\"%s\",\"kind\":\"%s\",\"input\":\"%s\",\"detail\":\"%s\"}\n",
        esc(site).c_str(), esc(kind).c_str(), esc(input).c_str(), esc(detail).c_str());
    fflush(stdout);
}
inline void progress(const std::string & site){
    fails_in_site = 0; ++nsites;
    printf("{\"t\":\"at\",\"site\":\"%s\"}\n", esc(site).c_str()); fflush(stdout);
}
inline void sample(const std::string & s){
    static int n = 0; if(n++ < 6){ printf("{\"t\":\"sample\",\"s\":\"%s\"}\n", esc(s).c_str()); }
}
inline void done(){
    printf("{\"t\":\"done\",\"sites\":%llu,\"n\":%llu,\"nontriv\":%llu,\"val\":%llu,\"err\":%llu,\"trap\":%llu,\"feat\":{",
        nsites, total.n, total.nontriv, total.val, total.err, total.trap);
    bool c = false; for(auto & f : feature){ printf("%s\"%s\":%llu", c ? "," : "", esc(f.first).c_str(), f.second); c = true; }
    printf("}}\n"); fflush(stdout);
}
inline void count(const Outcome & o, bool nontriv){
    ++total.n; if(nontriv) ++total.nontriv;
    if(o.k == VALUE) ++total.val; else if(o.k == ERROR){ ++total.err; ++feature[std::string("error:") + codename(o.code)]; } else ++total.trap;
}
inline void args(int argc, char ** argv){
    // seed tier
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; thorough = argc > 2 && argv[2][0] == 't';
    install();
}

// ---- value generation -----------------------------------------------------
inline void add_clip(std::vector<i128> & v, i128 x, i128 lo, i128 hi){ if(x >= lo && x <= hi) v.push_back(x); }
inline void uniq(std::vector<i128> & v){ std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
// all values if the range is small, otherwise boundaries, powers of two and random ones
inline std::vector<i128> values(i128 lo, i128 hi, Rng & r, int nrand, i128 exhaustive_below){
    std::vector<i128> v;
    if(hi - lo < exhaustive_below){ for(i128 x = lo; x <= hi; ++x) v.push_back(x); return v; }
    for(int d = 0; d < 3; ++d){ add_clip(v, lo + d, lo, hi); add_clip(v, hi - d, lo, hi); add_clip(v, d, lo, hi); add_clip(v, -d, lo, hi); }
    for(int k = 2; k < 65; ++k) for(int d = -1; d <= 1; ++d){
        i128 p = (i128)1 << k;
        if(k > 8 && k % 8 != 0 && k % 8 != 7 && r.below(3)) continue;
        add_clip(v, p + d, lo, hi); add_clip(v, -p + d, lo, hi);
    }
    for(int i = 0; i < nrand; ++i){
        v.push_back(r.range(lo, hi));
        int b = 1 + (int)r.below(64); i128 x = (i128)(r.next() >> (64 - b)); if(r.below(2)) x = -x;
        add_clip(v, x, lo, hi);
    }
    uniq(v); return v;
}

} // mon

#define VF_MON_GLOBALS \
namespace mon { sigjmp_buf jb; volatile sig_atomic_t armed = 0; Stats total; unsigned long long nsites = 0; \
  std::map<std::string,unsigned long long> feature; int fails_in_site = 0; std::string prop; uint64_t seed = 1; bool thorough = false; }
#endif
