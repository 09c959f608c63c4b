"""C21 numeric_limits, literals, storage of declared ranges."""
from .core import *
from .types import *

RULE = ('A site is one safe type, declared range, literal or literal expression; a case is one member of numeric_limits, one value stored, or one way of reading a literal, compared with the declaration '
        'or the base type. Every case compares two independent sources and is non-trivial.')
PRO = '#include "lim.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\nint main(int c,char**v){ args(c,v);\n'
END = 'done(); return 0; }'
BASES = INTS + EXTRA + [('signed char', 8, 1), ('long', 64, 1), ('unsigned long', 64, 0), ('char32_t', 32, 0), ('short', 16, 1), ('unsigned', 32, 0)]


def outside(T, sid):
    """probes just outside the declared range, from built-in types overlapping it"""
    out = ''
    for v, kind in ((T.lo - 1, 'below the minimum'), (T.hi + 1, 'above the maximum')):
        for q, w, s in (('long long', 64, 1), ('unsigned long long', 64, 0)):
            L, H = lim(w, s)
            if L <= v <= H and max(L, T.lo) <= min(H, T.hi): out += ' outside<%s,%s>("%s",parse("%d"),"%s");' % (T.cxx, q, sid, v, kind)
    return out


def others(T, nm, v, rng):
    B = rng.sample(BASES, 5)
    return ''.join(' lit_as<%s,%s>("%s",parse("%d"));' % (T.cxx, q, nm, v) for q, w, s in B if lim(w, s)[0] <= v <= lim(w, s)[1])


def main(prop):
    ck = Check(prop, RULE, ['unary minus and complement are judged on literals for which they are defined: minus on signed constants whose negation fits the literal\'s type, complement on signed constants'])
    rng = ck.rng; S = []
    for i, t in enumerate(BASES):
        for P in ('sn::native', 'sn::automatic', 'sn::cpp<8,16,32,64,64>'):
            for E in ('sn::default_exception_policy', 'sn::strict_exception_policy', 'sn::loose_exception_policy'):
                if not ck.thorough and rng.random() < .7: continue
                T = safe(t, P, E); sid = 'safe<%s,%s,%s>' % (t[0], P[4:], E[4:])
                S.append((sid, 'type_site<%s>("%s",parse("%d"),parse("%d"),%d);' % (T.cxx, sid, T.lo, T.hi, t[2]) + outside(T, sid)))
    seen = set()
    edges = [(a, b) for k in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1) for a, b in ((0, (1 << k) + d), (-(1 << k) + d, 0), (-(1 << k) + d, (1 << k) + d), ((1 << k) + d, (1 << k) + d), (-(1 << k) + d, -(1 << k) + d), (-1, (1 << k) + d), (-(1 << k) + d, (1 << (k // 2)) - 1))]
    rng.shuffle(edges)
    n = 1400 if ck.thorough else 120
    while len(seen) < n:
        if edges and rng.random() < .6:
            lo, hi = edges.pop(); s = lo < 0 or rng.random() < .5
        else: lo, hi, s = rand_range(rng)
        L, H = lim(64, s)
        if lo < L or hi > H or lo > hi or (lo, hi, s) in seen: continue
        seen.add((lo, hi, s)); T = (srange if s else urange)(lo, hi, rng.choice(['sn::native', 'sn::automatic']))
        S.append((T.name, 'type_site<%s>("%s",parse("%d"),parse("%d"),%d);' % (T.cxx, T.name, lo, hi, 1 if s else 0) + outside(T, T.name)))
    # every leading byte of a bound, once or more: the storage type is computed from it
    for b in range(1, 256):
        for _ in range(6 if ck.thorough else 1):
            w = rng.choice([8, 8, 16, 32, 63 if b < 128 else 32]); v = min((b << (w - 8) if w != 63 else b << 56) | (rng.getrandbits(w - 8) if w != 63 else rng.getrandbits(56)), (1 << 63) - 1)
            lo, hi, s = rng.choice([(0, v, 1), (0, v, 1), (-v, 0, 1), (-v - 1, 0, 1), (-v, v // 2, 1), (-(v // 2), v, 1), (v, v, 1), (0, v, 0)])
            if (lo, hi, s) in seen: continue
            seen.add((lo, hi, s)); T = (srange if s else urange)(lo, hi)
            S.append((T.name, 'bound_site<%s>("%s",parse("%d"),parse("%d"));' % (T.cxx, T.name, lo, hi)))
    vals = set()
    for k in (0, 1, 2, 7, 8, 15, 16, 31, 32, 63):
        for d in (-2, -1, 0, 1): vals.add((1 << k) + d); vals.add(-(1 << k) + d)
    for _ in range(700 if ck.thorough else 50): vals.add(rand_int(rng, rng.choice([8, 16, 32, 64]), 1)); vals.add(rand_int(rng, rng.choice([8, 32, 64]), 0))
    for v in sorted(vals):
        for s in (1, 0):
            if not ck.thorough and rng.random() < .4: continue
            L, H = lim(64, s)
            if not L <= v <= H: continue
            P, E = rng.choice([('void', 'void'), ('sn::native', 'sn::default_exception_policy'), ('sn::automatic', 'sn::default_exception_policy')])
            T = (sliteral if s else uliteral)(v, P, E); nm = T.name + ' ' + P
            S.append((nm, 'lit_site<%s>("%s",parse("%d"));' % (T.cxx, nm, v) + others(T, nm, v, rng)))
            if s:
                w = next(w for w in (8, 16, 32, 64) if lim(w, 1)[0] <= v <= lim(w, 1)[1])
                if v != lim(w, 1)[0]: S.append(('-' + nm, 'lit_minus<%s>("%s",parse("%d"));' % (T.cxx, '-' + nm, v)))
                S.append(('~' + nm, 'lit_not<%s>("%s",parse("%d"));' % (T.cxx, '~' + nm, v)))
            elif v == 0: S.append(('-' + nm, 'lit_minus<%s>("%s",parse("%d"));' % (T.cxx, '-' + nm, v)))
        if rng.random() < .4 and -(1 << 63) <= v < 1 << 64:
            sp = lit(v); nm = 'make_safe_literal %s' % sp
            S.append((nm, 'lit_macro("%s",make_safe_literal(%s,void,void),parse("%d"));' % (nm, sp, v)))
    rng.shuffle(S)
    us = [Unit('l%d' % i, PRO, part, END, compiler=(GXX, CLANG)[i % 2], flags=['-O1'] + UBSAN, runs=[(ck.seed, ck.tier[0])]) for i, part in enumerate(split(S, 96 if ck.thorough else 32))]
    ck.go(us)
    ck.tot['sites'] = len(S)
    return ck.finish()
