"""C07 conversions, C08 comparisons."""
from .core import Check, Unit, GXX, CLANG, split
from . import ops as O
from .types import *

KIND = {'construct': 'C_DIRECT', 'init': 'C_COPY', 'assign': 'C_ASSIGN', 'tobuiltin': 'C_TO_BUILTIN', 'cast': 'C_STATIC_CAST', 'brace': 'C_BRACE'}


def overlap(a, b):
    return a.lo <= b.hi and b.lo <= a.hi


def target(rng):
    P = rng.choice(['sn::native', 'sn::automatic'])
    return rand_range_ty(rng, P) if rng.random() < .65 else safe(rng.choice(INTS + EXTRA[1:]), P)


def source(rng):
    k = rng.random(); P = rng.choice(['sn::native', 'sn::automatic'])
    if k < .3: return builtin(rng.choice(INTS + EXTRA if rng.random() < .7 else OTHERS))
    if k < .75: return rand_range_ty(rng, P)
    if k < .9: return safe(rng.choice(INTS), P)
    return rand_lit(rng, 'sn::native', 'sn::default_exception_policy') if rng.random() < .5 else rand_lit(rng)


def near(rng, T):
    """a source range around the edges of T"""
    lo = T.lo + rng.randrange(-3, 4); hi = T.hi + rng.randrange(-3, 4)
    k = rng.random()
    if k < .3: lo = T.lo - rng.choice([0, 1, 200, 40000, 3 << 30])
    elif k < .6: hi = T.hi + rng.choice([0, 1, 200, 40000, 3 << 30])
    if lo > hi: lo, hi = hi, lo
    P = rng.choice(['sn::native', 'sn::automatic'])
    if lo >= 0 and rng.random() < .5 and hi < 1 << 64: return urange(lo, hi, P)
    lo = max(lo, -(1 << 63)); hi = min(hi, (1 << 63) - 1)
    return srange(lo, hi, P) if lo <= hi else None


def conv_site(kind, T, S, i=0):
    sid = '%s %s <- %s' % (kind, T.name, S.name)
    return sid, 'add_conv<%s,%s,%s >("%s");' % (KIND[kind], T.cxx, S.cxx, sid)


def c07(ck):
    rng = ck.rng; s = []
    # full grid: safe<T> from built-in and safe, built-in from safe
    for t in INTS:
        for u in INTS:
            for kind in ('construct', 'init', 'assign'):
                if ck.thorough or rng.random() < .4: s.append(conv_site(kind, safe(t), builtin(u)))
                if ck.thorough or rng.random() < .4: s.append(conv_site(kind, safe(t), safe(u)))
            s.append(conv_site('tobuiltin', builtin(t), safe(u)))
            if ck.thorough or rng.random() < .3: s.append(conv_site('cast', builtin(t), safe(u)))
    n = 6000 if ck.thorough else 1500
    while n:
        T = target(rng); S = near(rng, T) if rng.random() < .45 else source(rng)
        if S is None or not overlap(T, S): continue
        kind = rng.choice(['construct', 'init', 'assign', 'assign', 'brace', 'cast'])
        if kind in ('construct', 'cast', 'brace') and S.kind == 'literal' and rng.random() < .5: kind = 'init'
        s.append(conv_site(kind, T, S)); n -= 1
    n = 2000 if ck.thorough else 420
    while n:
        T = builtin(rng.choice(INTS + EXTRA + OTHERS[:1])); S = source(rng)
        if not O.haspol(S) and S.kind != 'literal': continue
        if S.kind == 'literal' and 'void' in S.cxx and not (T.lo <= S.lo <= T.hi): continue
        if not overlap(T, S): continue
        s.append(conv_site(rng.choice(['tobuiltin', 'cast']), T, S)); n -= 1
    s = O.dedup(s); rng.shuffle(s); us = []
    for i, part in enumerate(split(s, 96 if ck.thorough else 24)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        us.append(Unit('conv%d' % i, '#include "conv.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return conv_main(c,v); }',
                       compiler=(GXX, CLANG)[i % 2], runs=[(ck.seed, ck.tier[0], 3000 if ck.thorough else 300, 70000 if ck.thorough else 3000)]))
    return us


def cmp_site(T, U, pol):
    sid = '%s:%s ? %s' % (pol.lower()[:4], T.name, U.name)
    return sid, 'add_cmp<%s,%s >("%s",%s);' % (T.cxx, U.cxx, sid, pol)


def c08(ck):
    rng = ck.rng; s = []
    for pol in ('NATIVE', 'AUTOMATIC'):
        P = O.POL[pol]
        for t in INTS:
            for u in INTS:
                if ck.thorough or rng.random() < .5: s.append(cmp_site(safe(t, P), safe(u, P), pol))
                if ck.thorough or rng.random() < .2: s.append(cmp_site(safe(t, P), builtin(u), pol))
                if ck.thorough or rng.random() < .2: s.append(cmp_site(builtin(t), safe(u, P), pol))
        n = 2500 if ck.thorough else 260
        while n:
            T = rand_range_ty(rng, P); k = rng.random()
            if k < .35: # touching, adjacent, nested, disjoint relative to T
                m = rng.randrange(6); w = rng.choice([0, 1, 5, 300])
                lo, hi = {0: (T.hi, T.hi + w), 1: (T.hi + 1, T.hi + 1 + w), 2: (T.lo - w, T.lo), 3: (T.lo - 1 - w, T.lo - 1),
                          4: (T.lo + 1, T.hi - 1), 5: (T.lo, T.hi)}[m]
                if lo > hi: continue
                if lo >= 0 and hi < 1 << 64 and (rng.random() < .5 or hi >= 1 << 63): U = urange(lo, hi, P)
                elif lo >= -(1 << 63) and hi < 1 << 63: U = srange(lo, hi, P)
                else: continue
            elif k < .7: U = O.operand(rng, P)
            elif k < .8: U = builtin(rng.choice(OTHERS))
            else:
                v = max(-(1 << 63), rng.choice([T.lo, T.hi, T.lo - 1, T.hi + 1, (T.lo + T.hi) // 2]))
                U = uliteral(v) if v >= 0 and v < 1 << 64 and (rng.random() < .5 or v >= 1 << 63) else sliteral(v) if v < 1 << 63 else None
                if U is None: continue
            if rng.random() < .5: T, U = U, T
            s.append(cmp_site(T, U, pol)); n -= 1
    s = O.dedup(s); rng.shuffle(s); us = []
    for i, part in enumerate(split(s, 96 if ck.thorough else 24)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        us.append(Unit('cmp%d' % i, '#include "cmp.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return cmp_main(c,v); }',
                       compiler=(GXX, CLANG)[i % 2], runs=[(ck.seed, ck.tier[0], 60 if ck.thorough else 12, 300 if ck.thorough else 40)]))
    return us


R7 = ('A site is one way of initialising, assigning or converting for one (target type, source type); a case is one source value (all values of small '
      'sources, boundaries of both types, values aliasing acceptable ones modulo 2^8/2^16/2^32, random), for assignment also three prior target values. '
      'Non-trivial: the source is not 0 or the operation reported.')
R8 = ('A site is one operand type pair; a case is one of the six operators on one value pair (boundaries, equal and adjacent values, values equal modulo '
      '2^8..2^64, random). Non-trivial: operands differ or the operation reported.')


def main(prop):
    if prop == 'C07':
        ck = Check(prop, R7, ['the oracle is 128-bit integer arithmetic']); ck.go(c07(ck))
    else:
        ck = Check(prop, R8, ['the oracle is 128-bit integer arithmetic']); ck.go(c08(ck))
    return ck.finish()
