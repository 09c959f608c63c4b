// Whole programs over safe integers, logging what they do (C22). The log is checked against an interpreter afterwards.
#ifndef VF_PROG_HPP
#define VF_PROG_HPP
#include "mon.hpp"
#include <numeric>
#include <functional>
namespace mon {
inline std::string & plog(){ static std::string s; return s; }
template<class T> inline void TR(int k, const T & x){ plog() += ' '; plog() += std::to_string(k); plog() += ':'; plog() += str(raw(x)); ++total.n; ++total.val; ++total.nontriv; }
template<class T> inline void TR(int k, const std::vector<T> & v){ for(const T & x : v) TR(k, x); }
inline void ER(int k, const std::system_error & e){
    int c = code_of(e.code()); bool own = std::strcmp(e.code().category().name(), "safe numerics error") == 0;
    plog() += ' '; plog() += std::to_string(k); plog() += own ? ":E" + std::to_string(c) : ":?"; ++total.n; ++total.err; ++total.nontriv; ++feature[std::string("error:") + codename(c)];
}
struct Prog { const char * id; int nin; void (*f)(const i128 *); const char * data; };
inline std::vector<Prog> & progs(){ static std::vector<Prog> v; return v; }
struct RegProg { RegProg(const char * id, int nin, void (*f)(const i128 *), const char * data){ Prog p = {id, nin, f, data}; progs().push_back(p); } };
inline int prog_main(int argc, char ** argv){
    args(argc, argv);
    for(auto & p : progs()){
        progress(p.id);
        const char * s = p.data; int k = 0;
        while(*s){
            std::vector<i128> in;
            for(int i = 0; i < p.nin; ++i){ in.push_back(parse(s)); while(*s && *s != ' ') ++s; if(*s) ++s; }
            plog().clear(); Outcome o; observe([&](Outcome &){ p.f(in.data()); }, o);
            printf("L %s|%d|%s", p.id, k++, plog().c_str());
            if(o.k == TRAP) printf(" !trap%d", o.code); else if(o.k != VALUE) printf(" !%s", show(o).c_str());
            printf("\n"); ++feature["runs"];
        }
    }
    done(); return 0;
}
} // mon
#define TRY(k, ...) try { __VA_ARGS__ } catch(const std::system_error & e_){ mon::ER(k, e_); }
#define IN(T, i) mon::maker<T >::make(in[i])
#ifdef VF_PLAIN
#define V(T) T
#else
#define V(T) sn::safe<T, POL>
#endif
#endif
