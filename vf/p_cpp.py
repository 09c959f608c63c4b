"""C17 emulated platform promotion."""
from .core import Check, Unit, GXX, CLANG, split
from . import ops as O
from .types import *

RULE = ('A site is one operator for one operand type pair under one configuration of emulated sizes; its expected result type is computed from the configuration. '
        'Cases as for the native policy: boundary, directed and random value pairs, all values of small ranges. Non-trivial: the operation reported or its result differs from both operands.')
W = (8, 16, 32, 64)
CONFIGS = [(8, a, b, c, d) for a in W for b in W for c in W for d in W if a <= b <= c <= d]


def width(lo, hi):
    """width of the type a declared range is stored in"""
    for w in W:
        L, H = lim(w, 1 if lo < 0 else 0)
        if L <= lo and hi <= H: return w
    return 64


def stored(lo, hi, sgn):
    for w in W:
        L, H = lim(w, sgn)
        if L <= lo and hi <= H: return w
    return None


def promote(c, w, s):
    return (max(w, c[2]), s)


def expected(c, op, T, U):
    t = promote(c, *T)
    if op in ('neg', '~') or op in O.SHIFTS: return t
    u = promote(c, *U)
    if t[1] == u[1]: return (max(t[0], u[0]), t[1])
    if t[1] > u[1]: t, u = u, t         # t unsigned, u signed
    return t if t[0] >= u[0] else u


def operand(ck, c, P, kind=None):
    """(Ty, (width, signed)) with a stored type that exists on the platform"""
    rng = ck.rng; ok = set(c)
    while 1:
        k = rng.random() if kind is None else kind
        if k < .45:
            lo, hi, s = rand_range(rng); w = stored(lo, hi, s)
            if w in ok: return (srange if s else urange)(lo, hi, P), (w, s)
        elif k < .8:
            t = rng.choice(INTS + [('char', 8, 1), ('wchar_t', 32, 1)] + ([('long long', 64, 1), ('unsigned long long', 64, 0)] if c[4] == 64 else []))
            if t[1] in ok: return safe(t, P), (t[1], t[2])
        elif k < .9:
            t = rng.choice(INTS)
            if t[1] in ok: return builtin(t), (t[1], t[2])
        else:
            T = rand_lit(rng); s = 1 if T.name[0] == 's' else 0; w = stored(T.lo, T.hi, s)
            if w in ok: return T, (w, s)


def main(prop):
    ck = Check(prop, RULE, ['sizes are non-decreasing in rank, as the language requires', 'operands have types of the emulated platform; operands narrower than its int keep their signedness when widened (documented deviation of the policy)'])
    rng = ck.rng; S = {}
    n = 14000 if ck.thorough else 1300
    allops = O.ARITH + O.SHIFTS + O.BITS + ['neg', '~', 'cmp']
    while len(S) < n:
        c = rng.choice(CONFIGS); P = 'sn::cpp<%d,%d,%d,%d,%d>' % c; op = rng.choice(allops)
        T, t = operand(ck, c, P); U, u = operand(ck, c, P)
        if op in O.SHIFTS and rng.random() < .7:
            U = O.shift_count(rng, P); sg = 0 if U.lo >= 0 and (U.name[0] == 'u' or '<u' in U.name) else 1; u = (8, sg)
        if not (O.haspol(T) or O.haspol(U)): continue
        if op in ('neg', '~'):
            if not O.haspol(T): continue
            U, u = T, t
        if op in O.SHIFTS and not O.haspol(T) and not O.haspol(U): continue
        b, s = expected(c, op, t, u)
        sid = '%s %s %s %s' % ('cpp%s' % '/'.join(map(str, c)), T.name, op, U.name)
        if op == 'cmp': S[sid] = 'add_cmp_cpp<%s,%s>("%s",%d,%d);' % (T.cxx, U.cxx, sid, b, s)
        else: S[sid] = 'add_cpp<%s,%s,%s>("%s",%d,%d);' % (O.F[op], T.cxx, U.cxx, sid, b, s)
    S = list(S.items()); rng.shuffle(S); us = []
    for i, part in enumerate(split(S, 120 if ck.thorough else 24)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        us.append(Unit('cpp%d' % i, '#include "cppe.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return cpp_main(c,v); }',
                       compiler=(GXX, CLANG)[i % 2], runs=[(ck.seed, ck.tier[0], 60 if ck.thorough else 14, 300 if ck.thorough else 40)]))
    ck.extra_cov['configurations'] = len({k.split(' ')[0] for k, _ in S})
    ck.go(us)
    return ck.finish()
