// Threads on own objects and shared constant ones (C20).
#ifndef VF_THR_HPP
#define VF_THR_HPP
#include "ops.hpp"
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <thread>
#include <atomic>
#include <sstream>
#include <random>
#include <sched.h>
namespace mon {
// an event is one operation on objects of the executing thread (and shared constant ones); its outcome depends on nothing else
struct TSite { const char * id; TInfo t, u; void (*f)(i128 a, i128 b, Outcome &); };
inline std::vector<TSite> & tsites(){ static std::vector<TSite> v; return v; }
template<class T> struct ConstObj { static const T value; };
template<class T> const T ConstObj<T>::value = maker<T>::make(raw(std::numeric_limits<T>::max()));
template<class F,class T,class U> struct EOp { static void f(i128 a, i128 b, Outcome & o){ exec_site<F,T,U>(a, b, o); } };
template<class F,class T,class U> struct EShL { static void f(i128, i128 b, Outcome & o){ const U u = maker<U>::make(b); auto r = F::f(ConstObj<T>::value, u); o.v = raw(r); } };
template<class F,class T,class U> struct EShR { static void f(i128 a, i128, Outcome & o){ const T t = maker<T>::make(a); auto r = F::f(t, ConstObj<U>::value); o.v = raw(r); } };
template<class F,class T,class U> struct ECopy { static void f(i128 a, i128 b, Outcome & o){ T x = ConstObj<T>::value; x = maker<T>::make(a); U y(maker<U>::make(b)); bool q = x == y, s = ConstObj<T>::value < y; o.v = raw(x) * 4 + q * 2 + s; } };
template<class F,class T,class U> struct EConv { static void f(i128 a, i128, Outcome & o){ const T t = maker<T>::make(a); U u(t); o.v = raw(u); } };
template<class F,class T,class U> struct EHist { static void f(i128 a, i128 b, Outcome & o){ T x = maker<T>::make(a); const U u = maker<U>::make(b); o.v = raw(x); try { ++x; x -= u; x += u; --x; x *= u; x /= u; } catch(const std::system_error & e){ o.v = raw(x) * 16 + code_of(e.code()); } o.v = o.v * 2 + (raw(x) & 1); } };
template<class F,class T,class U> struct EStream { static void f(i128 a, i128 b, Outcome & o){
    std::stringstream ss; ss << maker<T>::make(a) << ' ' << str(b) << ' ' << ConstObj<T>::value; T x = ConstObj<T>::value, y = x; ss >> x; o.v = raw(x) * 4; ss >> y; o.v += raw(y) * 2; } };
template<class F,class T,class U> struct EErr { static void f(i128 a, i128, Outcome & o){
    using E = sn::safe_numerics_error; int c = 1 + (int)((u128)(a < 0 ? -a : a) % 10); std::error_code e = static_cast<E>(c);
    std::string m = e.message(); o.v = (i128)hash_str(m.c_str()); for(int k = 0; k < 5; ++k) o.v = o.v * 2 + (e == std::error_condition(k, sn::safe_numerics_actions_category)); o.v = o.v * 2 + (e == make_error_code(static_cast<E>(c))); } };
template<class F,class T,class U> struct EChk { static void f(i128 a, i128 b, Outcome & o){
    using B = typename sn::base_type<T>::type; B x = (B)a, y = (B)(i128)b;
    auto s = sn::checked::add<B>(x, y), d = sn::checked::subtract<B>(x, y); auto m = s * d; auto q = m - sn::checked_result<B>(x);
    auto enc = [](const sn::checked_result<B> & r){ if(r.exception()) return (i128)1000003 * (int)static_cast<sn::safe_numerics_error>(r) + (i128)hash_str(static_cast<const char *>(r)) % 1000; return (i128)static_cast<B>(r); };
    o.v = enc(s) + 3 * enc(d) + 5 * enc(m) + 7 * enc(q); } };
template<class F,class T,class U> struct EIval { static void f(i128 a, i128 b, Outcome & o){
    using R = sn::checked_result<std::int64_t>; std::int64_t x = (std::int64_t)(a % 100000), y = (std::int64_t)(b % 100000);
    sn::interval<R> i(R(std::min(x, y)), R(std::max(x, y))), j(R(std::int64_t(-3)), R(std::int64_t(x & 7)));
    auto s = i + j, p = i * j; o.v = (i128)(std::int64_t)s.l + 3 * (i128)(std::int64_t)s.u + 5 * (i128)(std::int64_t)p.l + 7 * (i128)(std::int64_t)p.u; } };
template<template<class,class,class> class K,class F,class T,class U> void add_thr(const char * id){ TSite s; s.id = id; s.t = tinfo<T>(); s.u = tinfo<U>(); s.f = &K<F,T,U>::f; tsites().push_back(s); }

struct Event { const TSite * s; i128 a, b; };
struct Res { int k; i128 v; int code; uint64_t what; bool operator==(const Res & r) const { return k == r.k && v == r.v && code == r.code && what == r.what; } };
inline Res run_event(const Event & e){      // no shared monitor state in here
    Outcome o; Res r; r.k = VALUE; r.code = 0; r.what = 0; r.v = 0;
    try { e.s->f(e.a, e.b, o); r.v = o.v; }
    catch(const std::system_error & x){ r.k = ERROR; r.code = code_of(x.code()); r.what = hash_str(x.what()); }
    catch(const std::exception & x){ r.k = OTHER; r.what = hash_str(x.what()); }
    catch(...){ r.k = OTHER; }
    return r;
}
inline std::string showr(const Res & r){ Outcome o; o.k = r.k; o.v = r.v; o.code = r.code; return show(o); }
inline std::atomic<unsigned> & ticket(){ static std::atomic<unsigned> t(0); return t; }
struct Th { int no; uint64_t seed; const std::vector<Event> * ev; std::vector<Res> log; std::vector<unsigned> tick; std::atomic<int> * go; int n; };
inline void body(Th * t){
    std::vector<int> ord(t->ev->size()); for(size_t i = 0; i < ord.size(); ++i) ord[i] = (int)i;
    Rng r(t->seed); 
    // all threads use the same instantiations at about the same time, in different orders
    for(size_t i = 0; i + 1 < ord.size(); ++i){ size_t w = std::min<size_t>(ord.size() - i, t->no % 2 ? 64 : ord.size()); std::swap(ord[i], ord[i + r.below(w)]); }
    t->go->fetch_add(1, std::memory_order_relaxed); while(t->go->load(std::memory_order_relaxed) < t->n) sched_yield();
    for(int i : ord){
        t->log[i] = run_event((*t->ev)[i]);
        if((i & 3) == 0) t->tick.push_back(ticket().fetch_add(1, std::memory_order_relaxed));
        switch(r.below(64)){ case 0: sched_yield(); break; case 1: usleep(r.below(3)); break; }
    }
}
// prog seed tier order nrand threads rounds
inline int thr_main(int argc, char ** argv){
    args(argc, argv); for(int s : {SIGILL, SIGFPE, SIGSEGV, SIGABRT, SIGBUS, SIGTRAP}) signal(s, SIG_DFL);
    uint64_t order = strtoull(argv[3], 0, 10); int nrand = atoi(argv[4]), maxt = atoi(argv[5]), rounds = atoi(argv[6]);
    std::vector<Event> ev;
    for(auto & s : tsites()){
        Rng r(seed ^ hash_str(s.id)); std::vector<i128> A = values(s.t.lo, s.t.hi, r, nrand, 24), B = values(s.u.lo, s.u.hi, r, nrand, 24);
        for(int i = 0; i < nrand; ++i){ Event e = { &s, A[r.below(A.size())], B[r.below(B.size())] }; ev.push_back(e); }
    }
    if(argc > 7 && !strcmp(argv[7], "list")) for(auto & e : ev){ Res r = run_event(e); printf("{\"t\":\"out\",\"in\":\"%s: %s , %s\",\"o\":\"%s\"}\n", e.s->id, str(e.a).c_str(), str(e.b).c_str(), showr(r).c_str()); }
    std::vector<Res> first; unsigned long long switches = 0;
    Rng r(order * 7919 + seed);
    for(int round = 0; round < rounds; ++round){
        int n = 2 + (int)r.below(maxt - 1); std::atomic<int> go(0); std::vector<Th> th(n); std::vector<std::thread> run;
        for(int i = 0; i < n; ++i){ th[i].no = i; th[i].seed = r.next(); th[i].ev = &ev; th[i].log.resize(ev.size()); th[i].go = &go; th[i].n = n; th[i].tick.reserve(ev.size()); }
        for(int i = 0; i < n; ++i) run.push_back(std::thread(body, &th[i]));
        for(auto & t : run) t.join();
        std::vector<std::pair<unsigned,int>> seq; for(auto & t : th) for(unsigned k : t.tick) seq.push_back(std::make_pair(k, t.no));
        std::sort(seq.begin(), seq.end()); for(size_t i = 1; i < seq.size(); ++i) if(seq[i].second != seq[i - 1].second) ++switches;
        for(size_t i = 0; i < ev.size(); ++i){
            if(first.size() <= i) first.push_back(th[0].log[i]);
            for(auto & t : th){ ++total.n; ++total.nontriv; if(t.log[i].k == VALUE) ++total.val; else { ++total.err; ++feature[std::string("error:") + codename(t.log[i].code)]; }
                if(!(t.log[i] == first[i])) { fails_in_site = 0; fail(ev[i].s->id, "result-depends-on-schedule", str(ev[i].a) + " , " + str(ev[i].b), "a thread got " + showr(t.log[i]) + ", another " + showr(first[i])); } }
        }
        feature["thread runs"] += n; if(fails_in_site > 0) break;
    }
    // sequential replays in several orders, forwards, backwards and shuffled
    std::vector<int> ord(ev.size()); for(size_t i = 0; i < ord.size(); ++i) ord[i] = (int)i;
    for(int k = 0; k < 4; ++k){
        if(k == 1) std::reverse(ord.begin(), ord.end()); else if(k > 1) for(size_t i = 0; i + 1 < ord.size(); ++i) std::swap(ord[i], ord[i + r.below(ord.size() - i)]);
        for(int i : ord){
            Res q = run_event(ev[i]); ++total.n; ++total.nontriv; if(q.k == VALUE) ++total.val; else ++total.err;
            if(!(q == first[i])){ fails_in_site = 0; fail(ev[i].s->id, "result-depends-on-history", str(ev[i].a) + " , " + str(ev[i].b), "sequential run gives " + showr(q) + ", before it gave " + showr(first[i])); }
            if(total.n % 20011 == 5) sample(std::string(ev[i].s->id) + ": " + str(ev[i].a) + " , " + str(ev[i].b) + " -> " + showr(q) + " in every thread and order");
        }
        ++feature["sequential replays"];
    }
    // digest per site for the comparison with other processes, in which other operations came first
    std::map<std::string,uint64_t> dg; for(size_t i = 0; i < ev.size(); ++i){ uint64_t & h = dg[ev[i].s->id]; h = (h ^ hash_str(showr(first[i]).c_str()) ^ first[i].what) * 1099511628211ull; }
    for(auto & d : dg) printf("{\"t\":\"digest\",\"site\":\"%s\",\"h\":\"%llx\"}\n", esc(d.first).c_str(), (unsigned long long)d.second);
    nsites = tsites().size(); feature["thread switches observed"] += switches; feature["distinct events"] += ev.size();
    done(); return 0;
}
}
#endif
