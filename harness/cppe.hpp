// Emulated platforms (C17): the expected result type of every site is computed by the generator from the sizes of the
// emulated types; here the actual type and all results are compared with it.
#ifndef VF_CPPE_HPP
#define VF_CPPE_HPP
#include "cmp.hpp"
#include <boost/safe_numerics/cpp.hpp>
namespace mon {
inline i128 blo_of(int bits, bool sgn){ return sgn ? -((i128)1 << (bits - 1)) : 0; }
inline i128 bhi_of(int bits, bool sgn){ return ((i128)1 << (bits - (sgn ? 1 : 0))) - 1; }
template<class F,class T,class U> void add_cpp(const char * id, int bits, bool sgn){
    using R = decltype(F::f(std::declval<T>(), std::declval<U>()));
    Site s; s.id = id; s.op = F::op; s.pol = CPP; s.t = tinfo<T>(); s.u = tinfo<U>(); s.r = tinfo<R>(); s.nbits = bits; s.nsgn = sgn;
    s.same_builtin = s.r.bits == bits && s.r.sgn == sgn; s.f = &exec_site<F,T,U>; sites().push_back(s);
}
template<class T,class U> void add_cmp_cpp(const char * id, int bits, bool sgn){
    CmpSite s; s.id = id; s.pol = CPP; s.t = tinfo<T>(); s.u = tinfo<U>(); s.f = &exec_cmp_site<T,U>;
    s.csgn = sgn; s.clo = blo_of(bits, sgn); s.chi = bhi_of(bits, sgn); cmp_sites().push_back(s);
}
inline void cpp_site(Site s, int nrand, i128 exh){
    ++feature[std::string("emulated type:") + (s.nsgn ? "int" : "uint") + std::to_string(s.nbits)];
    if(!s.same_builtin){ progress(s.id); fail(s.id, "result-type-differs-from-emulated-platform", opname(s.op), std::string("result is ") + (s.r.sgn ? "signed " : "unsigned ") + std::to_string(s.r.bits) + " bits, the platform has " + (s.nsgn ? "signed " : "unsigned ") + std::to_string(s.nbits)); return; }
    run_site(s, J_EXACT | J_SPURIOUS | J_RANGE, nrand, exh);
}
inline int cpp_main(int argc, char ** argv){
    args(argc, argv); int nrand = atoi(argv[3]); i128 exh = parse(argv[4]);
    for(auto & s : sites()) cpp_site(s, nrand, exh);
    char n[16], e[24]; snprintf(n, 16, "%d", nrand); snprintf(e, 24, "%s", argv[4]);
    char * av[] = { argv[0], argv[1], argv[2], n, e, nullptr };
    return cmp_main(5, av);
}
}
#endif
