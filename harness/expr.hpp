// Compound expressions with every intermediate observed (C06).
#ifndef VF_EXPR_HPP
#define VF_EXPR_HPP
#include "ops.hpp"
namespace mon {
struct NodeRec { int op; i128 a, b, r, lo, hi, blo, bhi; int nbits; bool nsgn; };
struct Rec {
    std::vector<NodeRec> v;
    template<class F, class A, class B> auto node(const A & a, const B & b){
        auto r = F::f(a, b);
        using R = decltype(r);
        using N = typename builtin_result<F, typename sn::base_type<A>::type, typename sn::base_type<B>::type>::type;
        TInfo t = tinfo<R>();
        NodeRec n = { F::op, raw(a), raw(b), raw(r), t.lo, t.hi, t.blo, t.bhi, (int)sizeof(N) * 8, std::is_signed<N>::value };
        v.push_back(n);
        return r;
    }
    // storing an intermediate into a declared variable
    template<class T, class A> T store(const A & a){
        T t(a); TInfo i = tinfo<T>();
        NodeRec n = { -1, raw(a), 0, raw(t), i.lo, i.hi, i.blo, i.bhi, 0, false }; v.push_back(n);
        return t;
    }
};
struct Tree { const char * id; std::vector<TInfo> leaf; void (*f)(const i128 *, Rec &); };
inline std::vector<Tree> & trees(){ static std::vector<Tree> v; return v; }
inline std::string render(const Tree & t, const std::vector<i128> & L){
    std::string s; for(size_t i = 0; i < L.size(); ++i){ if(i) s += ","; s += str(L[i]); } (void)t; return s;
}
inline void judge_tree(const Tree & t, const std::vector<i128> & L){
    static Rec rec; rec.v.clear();
    Outcome o; o.v = 0;
    observe([&](Outcome & q){ t.f(L.data(), rec); q.v = rec.v.empty() ? 0 : rec.v.back().r; }, o);
    count(o, true);
    feature["intermediates observed"] += rec.v.size();
    for(size_t i = 0; i < rec.v.size(); ++i){
        const NodeRec & n = rec.v[i];
        std::string d = "node " + std::to_string(i) + " (" + (n.op < 0 ? std::string("store") : str(n.a) + " " + opname(n.op) + " " + str(n.b)) + ") = " + str(n.r) + ", declared " + str(n.lo) + ".." + str(n.hi);
        if(n.r < n.lo || n.r > n.hi) fail(t.id, "value-outside-declared-range", render(t, L), d);
        if(n.lo > n.hi || n.lo < n.blo || n.hi > n.bhi) fail(t.id, "malformed-declared-range", render(t, L), d);
        Exact e = n.op < 0 ? Exact{0, n.a} : exact(n.op, n.a, n.b, n.nbits, n.nsgn);
        if(e.st || e.v != n.r) fail(t.id, "wrong-value", render(t, L), d + ", exact " + (e.st ? "none" : str(e.v)));
    }
    if(o.k >= TRAP) fail(t.id, "undefined-behaviour", render(t, L), show(o) + " after " + std::to_string(rec.v.size()) + " nodes");
    if(total.n % 50021 == 11) sample(std::string(t.id) + " at " + render(t, L) + " -> " + show(o));
}
inline i128 pick(const TInfo & t, Rng & r){
    i128 v;
    switch(r.below(6)){
    case 0: v = t.lo + (i128)r.below(2); break;
    case 1: v = t.hi - (i128)r.below(2); break;
    case 2: v = (i128)r.below(5) - 2; break;
    case 3: { int b = 1 + (int)r.below(64); v = (i128)(r.next() >> (64 - b)); if(r.below(2)) v = -v; break; }
    default: return r.range(t.lo, t.hi);
    }
    return v < t.lo ? t.lo : v > t.hi ? t.hi : v;
}
inline void run_trees(int n, int corners){
    for(auto & t : trees()){
        progress(t.id); Rng r(seed ^ hash_str(t.id));
        size_t k = t.leaf.size();
        std::vector<i128> L(k);
        // all corner combinations {lo, hi, near 0} then random points
        unsigned long long c = 1; for(size_t i = 0; i < k; ++i) c *= 3;
        if(c > (unsigned long long)corners) c = corners;
        for(unsigned long long m = 0; m < c; ++m){
            unsigned long long q = m;
            for(size_t i = 0; i < k; ++i, q /= 3){
                i128 z = t.leaf[i].lo > 0 ? t.leaf[i].lo : t.leaf[i].hi < 0 ? t.leaf[i].hi : 0;
                L[i] = q % 3 == 0 ? t.leaf[i].lo : q % 3 == 1 ? t.leaf[i].hi : z;
            }
            judge_tree(t, L);
        }
        for(int j = 0; j < n && fails_in_site < 6; ++j){ for(size_t i = 0; i < k; ++i) L[i] = pick(t.leaf[i], r); judge_tree(t, L); }
    }
}
inline int expr_main(int argc, char ** argv){ // seed tier n corners
    args(argc, argv); run_trees(atoi(argv[3]), atoi(argv[4])); done(); return 0;
}
} // mon
#endif
