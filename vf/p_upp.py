"""C23 promotion policies supplied by the user."""
from .core import Check, Unit, GXX, CLANG, split
from . import ops as O
from .types import *

RULE = ('A site is one operator for one operand type pair under a promotion policy made up by the generator (a type per operator, the type of one operand, or the wider width); its expected result type follows from the policy. '
        'Cases: boundary, directed and random value pairs, all values of small ranges. Non-trivial: the operation reported or its result differs from both operands.')
SLOT = {'+': 0, '-': 1, '*': 2, '/': 3, '%': 4, 'cmp': 5, '<<': 6, '>>': 7, '&': 8, '|': 9, '^': 10, 'neg': 1, '~': 10}


def stored(lo, hi, sgn):
    for w in (8, 16, 32, 64):
        L, H = lim(w, sgn)
        if L <= lo and hi <= H: return w


def operand(ck, P):
    """(Ty, (bits, signed))"""
    rng = ck.rng
    k = rng.random()
    if k < .45:
        lo, hi, s = rand_range(rng, small=rng.random() < .4); return (srange if s else urange)(lo, hi, P), (stored(lo, hi, s), s)
    if k < .75: t = rng.choice(INTS); return safe(t, P), (t[1], t[2])
    if k < .88: t = rng.choice(INTS); return builtin(t), (t[1], t[2])
    T = rand_lit(rng); s = 1 if T.name[0] == 's' else 0; return T, (stored(T.lo, T.hi, s), s)


def policy(rng):
    """(C++ type, function from slot and operand types to the result type)"""
    z = rng.random()
    if z < .55:
        ts = [rng.choice(INTS + [x for x in INTS if x[1] >= 32]) for _ in range(11)]
        if z < .2: ts = [ts[0]] * 11; return 'fixed<%s>' % ts[0][0], lambda k, t, u: ts[k][1:]
        return 'per_op<%s>' % ','.join(t[0] for t in ts), lambda k, t, u: ts[k][1:]
    if z < .67: return 'left_type', lambda k, t, u: t
    if z < .79: return 'right_type', lambda k, t, u: u
    if z < .9: return 'wider_signed', lambda k, t, u: (max(t[0], u[0]), 1)
    return 'wider_unsigned', lambda k, t, u: (max(t[0], u[0]), 0)


def main(prop):
    ck = Check(prop, RULE, ['bitwise operators are judged where both operands are representable in the type the policy chose'])
    rng = ck.rng; S = {}; n = 12000 if ck.thorough else 1300; pols = set()
    while len(S) < n:
        P, f = policy(rng)
        op = rng.choice(O.ARITH * 2 + O.SHIFTS + O.BITS + ['neg', '~', 'cmp', 'cmp'])
        T, t = operand(ck, P); U, u = operand(ck, P)
        if op in O.SHIFTS and rng.random() < .7:
            U = O.shift_count(rng, P); s = 0 if U.name[0] == 'u' or '<u' in U.name else 1; u = (stored(U.lo, U.hi, s), s)
            if U.kind in ('safe', 'builtin'): u = next((x[1], x[2]) for x in INTS if lim(x[1], x[2]) == (U.lo, U.hi))
        if not (O.haspol(T) or O.haspol(U)): continue
        if op in ('neg', '~'):
            if not O.haspol(T): continue
            U, u = T, t
        b, s = f(SLOT[op], t, u); pols.add(P)
        L, H = lim(b, s)
        if op == 'cmp' and P in ('left_type', 'right_type'): continue     # which operand counts as the left one is up to the library
        if any(x.hi < L or x.lo > H for x in (T, U)) and op != 'cmp': continue     # can never succeed: may be rejected at compile time
        sid = '%s: %s %s %s' % (P.replace('std::', ''), T.name, op, U.name)
        if op == 'cmp': S[sid] = 'add_cmp_cpp<%s,%s>("%s",%d,%d);' % (T.cxx, U.cxx, sid, b, s)
        else: S[sid] = 'add_cpp<%s,%s,%s>("%s",%d,%d);' % (O.F[op], T.cxx, U.cxx, sid, b, s)
    S = list(S.items()); rng.shuffle(S); us = []
    for i, part in enumerate(split(S, 120 if ck.thorough else 24)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        us.append(Unit('upp%d' % i, '#include "upp.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return upp_main(c,v); }',
                       compiler=(GXX, CLANG)[i % 2], runs=[(ck.seed, ck.tier[0], 60 if ck.thorough else 14, 300 if ck.thorough else 40)]))
    ck.extra_cov['policies'] = len(pols)
    ck.go(us)
    return ck.finish()
