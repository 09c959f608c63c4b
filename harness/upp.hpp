// Promotion policies written by a user of the library (C23): the result type of every operator is the policy's choice.
#ifndef VF_UPP_HPP
#define VF_UPP_HPP
#include "cppe.hpp"
namespace mon {
#define VF_RES(NAME, ...) template<class T, class U> struct NAME { using type = __VA_ARGS__; };
// one type per operator
template<class A, class S, class M, class D, class O, class C, class L, class R, class N, class I, class X> struct per_op {
    VF_RES(addition_result, A) VF_RES(subtraction_result, S) VF_RES(multiplication_result, M) VF_RES(division_result, D) VF_RES(modulus_result, O)
    VF_RES(comparison_result, C) VF_RES(left_shift_result, L) VF_RES(right_shift_result, R) VF_RES(bitwise_and_result, N) VF_RES(bitwise_or_result, I) VF_RES(bitwise_xor_result, X)
};
template<class R> using fixed = per_op<R, R, R, R, R, R, R, R, R, R, R>;
#define VF_ALL(...) VF_RES(addition_result, __VA_ARGS__) VF_RES(subtraction_result, __VA_ARGS__) VF_RES(multiplication_result, __VA_ARGS__) VF_RES(division_result, __VA_ARGS__) VF_RES(modulus_result, __VA_ARGS__) \
    VF_RES(comparison_result, __VA_ARGS__) VF_RES(left_shift_result, __VA_ARGS__) VF_RES(right_shift_result, __VA_ARGS__) VF_RES(bitwise_and_result, __VA_ARGS__) VF_RES(bitwise_or_result, __VA_ARGS__) VF_RES(bitwise_xor_result, __VA_ARGS__)
// the type of the left or right operand, without any promotion
struct left_type { VF_ALL(typename sn::base_type<T>::type) };
struct right_type { VF_ALL(typename sn::base_type<U>::type) };
// always signed or always unsigned, in the wider width
template<class T, class U> using wider = typename std::conditional<(sizeof(typename sn::base_type<T>::type) >= sizeof(typename sn::base_type<U>::type)), typename sn::base_type<T>::type, typename sn::base_type<U>::type>::type;
struct wider_signed { VF_ALL(typename std::make_signed<wider<T, U>>::type) };
struct wider_unsigned { VF_ALL(typename std::make_unsigned<wider<T, U>>::type) };

inline void upp_site(Site s, int nrand, i128 exh){
    ++feature[std::string("result type:") + (s.nsgn ? "int" : "uint") + std::to_string(s.nbits)];
    if(!s.same_builtin){ progress(s.id); fail(s.id, "result-type-differs-from-policy", opname(s.op), std::string("result is ") + (s.r.sgn ? "signed " : "unsigned ") + std::to_string(s.r.bits) + " bits, the policy says " + (s.nsgn ? "signed " : "unsigned ") + std::to_string(s.nbits)); return; }
    if(is_bit(s.op)){   // bit patterns of operands the result type can't hold are not judged
        auto clip = [&](TInfo & t){ if(t.lo < s.r.blo) t.lo = s.r.blo; if(t.hi > s.r.bhi) t.hi = s.r.bhi; };
        clip(s.t); clip(s.u); if(s.t.lo > s.t.hi || s.u.lo > s.u.hi) return;
    }
    run_site(s, J_EXACT | J_SPURIOUS | J_RANGE, nrand, exh);
}
inline int upp_main(int argc, char ** argv){
    args(argc, argv); int nrand = atoi(argv[3]); i128 exh = parse(argv[4]);
    for(auto & s : sites()) upp_site(s, nrand, exh);
    return cmp_main(5, argv);
}
}
#endif
