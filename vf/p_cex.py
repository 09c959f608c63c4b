"""C18 constant evaluation against run time, across compilers and optimisation levels."""
import json
from .core import Check, Unit, GXX, CLANG, split
from . import ops as O
from .types import *

RULE = ('A site is one operator, conversion, compound assignment history or primitive for one operand type pair. Cases are value pairs evaluated both as a constant expression (presence of a '
        'constant observed by substitution, its value taken from the compiler) and at run time, plus value pairs evaluated at run time in every build configuration whose outcome logs must be identical. '
        'Every case is one comparison of two independent evaluations and therefore non-trivial.')
CFG = [(GXX, '-O0'), (GXX, '-O1'), (GXX, '-O2'), (GXX, '-O3'), (CLANG, '-O0'), (CLANG, '-O1'), (CLANG, '-O2'), (CLANG, '-O3')]
HIST = {'+=': 'HAdd', '-=': 'HSub', '*=': 'HMul', '/=': 'HDiv', '%=': 'HMod', '<<=': 'HShl', '>>=': 'HShr', '&=': 'HAnd', '|=': 'HOr', '^=': 'HXor',
        '++': 'HInc', '--': 'HDec', 'post++': 'HIncP', 'post--': 'HDecP', 'seq': 'HSeq'}
PRIM = ['KAdd', 'KSub', 'KMul', 'KDiv', 'KMod', 'KShl', 'KShr', 'KAnd', 'KOr', 'KXor', 'KNot', 'KNeg', 'KCast', 'QSum', 'QDif', 'QMul', 'QDiv', 'QShl']


def vals(rng, T, n):
    c = {T.lo, T.hi, T.lo + 1, T.hi - 1, 0, 1, -1, 2, 3, 7, 8, 31, 32, 63, 64}
    for k in (7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0): c.add((1 << k) + d); c.add(-(1 << k) - d)
    c = sorted(v for v in c if T.lo <= v <= T.hi)
    out = [T.lo, T.hi]
    for _ in range(n):
        k = rng.random()
        if k < .5: out.append(rng.choice(c))
        else:
            v = rng.randrange(T.lo, T.hi + 1) if k < .7 else rng.choice([-1, 1]) * rng.getrandbits(rng.randrange(1, 65))
            out.append(min(T.hi, max(T.lo, v)))
    return out


def pairs(rng, T, U, n, unary):
    A = vals(rng, T, n); B = vals(rng, U, n) if not unary else [U.lo] * (n + 2)
    p = list(zip(A, reversed(B))) + [(rng.choice(A), rng.choice(B)) for _ in range(n)]
    for a in A[2:6]:       # aimed at the edge of 32 and 64 bit results
        for t in ((1 << 31) - 1, -(1 << 31), (1 << 32) - 1, (1 << 63) - 1, -(1 << 63), (1 << 64) - 1):
            for b in (t - a, a - t, t // a if a else 0, t - a + 1):
                if U.lo <= b <= U.hi and rng.random() < .4: p.append((a, b))
    seen = []
    for x in p:
        if x not in seen: seen.append(x)
    rng.shuffle(seen)
    return seen[:n]


def cx(sid, W, T, U, ps, prim=False, unary=False):
    V = 'CX<%s,%s,%s>' % (W, T.cxx, U.cxx)
    L = ','.join('pr<X,X::V<%s,%s>>(parse("%d"),parse("%d"))' % (lit(a), lit(b), a, b) for a, b in ps)
    return (sid, 'using X = %s; add_cx<%s,%s,%s>("%s",%d,%d,{%s});' % (V, W, T.cxx, U.cxx, sid, prim, unary, L))


def main(prop):
    ck = Check(prop, RULE, ['the error policies in force at compile time and run time are the same (throwing)', 'two compilers and four optimisation levels each stand for "every"'])
    rng = ck.rng; S = {}
    n = 3600 if ck.thorough else 300; np = 16 if ck.thorough else 10
    # always: arithmetic on whole types, where the compilers' own overflow handling would show
    for t in INTS:
        for pol in ('NATIVE', 'AUTOMATIC'):
            T = safe(t, O.POL[pol])
            for op in O.ARITH + ['<<', '>>']:
                if not ck.thorough and (t[1] < 32 or pol == 'AUTOMATIC' and t[1] < 64): continue
                sid = '%s %s %s %s' % (pol[:4].lower(), T.name, op, T.name); S[sid] = cx(sid, 'OpF<%s>' % O.F[op], T, T, pairs(rng, T, T, np, False))
    n += len(S)
    while len(S) < n:
        pol = rng.choice(['NATIVE', 'NATIVE', 'AUTOMATIC']); P = O.POL[pol]; k = rng.random()
        if k < .55:
            op = rng.choice(O.ARITH * 2 + O.SHIFTS + O.BITS + O.CMPS + ['neg', '~'])
            T = O.operand(rng, P); U = O.shift_count(rng, P) if op in O.SHIFTS and rng.random() < .7 else O.operand(rng, P)
            un = op in ('neg', '~')
            if un:
                if not O.haspol(T): continue
                U = T
            if not (O.haspol(T) or O.haspol(U)): continue
            sid = '%s %s %s %s' % (pol[:4].lower(), T.name, op, U.name); W = 'OpF<%s>' % O.F[op]
            S[sid] = cx(sid, W, T, U, pairs(rng, T, U, np, un), unary=un)
        elif k < .70:
            w = rng.choice(['CtorF', 'CastF', 'ImplF', 'AsgnF']); R = O.operand(rng, P, allow_lit=False); T = O.operand(rng, P)
            if not (R.safe or T.safe) or 'mon::' in R.cxx: continue
            if R.lo > T.hi or T.lo > R.hi: continue     # ranges which don't overlap are rejected by design
            if w == 'AsgnF':
                if not R.safe: continue
                sid = 'assign %s = %s' % (R.name, T.name); S[sid] = cx(sid, 'AsgnF<int>', R, T, pairs(rng, R, T, np, False)); continue
            if w == 'ImplF' and not T.safe and not R.safe: continue
            sid = '%s %s <- %s' % (w, R.name, T.name); S[sid] = cx(sid, '%s<%s>' % (w, R.cxx), T, T, pairs(rng, T, T, np, True), unary=True)
        elif k < .85:
            h = rng.choice(list(HIST)); T = O.operand(rng, P, allow_lit=False, allow_builtin=False); U = O.shift_count(rng, P) if '<<' in h or '>>' in h else O.operand(rng, P, small=rng.random() < .5)
            un = '++' in h or '--' in h
            if un: U = T
            # results which cannot be in the target's range are rejected by design
            if T.lo == T.hi or not un and (T.lo > 0 or T.hi < 0 or U.lo > 0 or U.hi < 1): continue
            sid = '%s %s %s %s' % (pol[:4].lower(), T.name, h, U.name); S[sid] = cx(sid, HIST[h], T, U, pairs(rng, T, U, np, un), unary=un)
        else:
            w = rng.choice(PRIM); R = rng.choice(INTS); T = builtin(R); un = w in ('KNot', 'KNeg', 'KCast')
            if w == 'KCast': T = builtin(rng.choice(INTS))
            U = T
            sid = '%s<%s> %s' % (w, short(R[0]), T.name); S[sid] = cx(sid, '%s<%s>' % (w, R[0]), T, U, pairs(rng, T, U, np, un), prim=True, unary=un)
    S = list(S.values()); rng.shuffle(S); us = []; groups = []
    for i, part in enumerate(split(S, 36 if ck.thorough else 6)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        g = []
        for c, o in CFG:
            u = Unit('cx%d_%s%s' % (i, c.replace('+', 'x'), o), '#include "cex.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return cex_main(c,v); }',
                     compiler=c, flags=[o], runs=[(ck.seed, ck.tier[0], 30 if ck.thorough else 8)])
            g.append(u); us.append(u)
        groups.append(g)
    ck.build(us)
    out = ck.run(us)
    digest = {}                                   # site -> {digest: [configurations]}
    k = 0
    for g in groups:
        for u in g:
            if not u.binary: continue
            rc, so, se = out[k]; k += 1
            for line in so.splitlines():
                if line.startswith('{"t":"digest"'):
                    d = json.loads(line); digest.setdefault(d['site'], {}).setdefault(d['h'], []).append(u)
    nd = 0
    for site, m in digest.items():
        nd += 1
        if len(m) > 1:
            a, b = [v[0] for v in list(m.values())[:2]]
            outs = []
            for u in (a, b):
                _, so, _ = ck._run1(u, list(u.runs[0]) + [site]); outs.append([json.loads(l) for l in so.splitlines() if l.startswith('{"t":"out"')])
            w = next(((x['in'], x['o'], y['o']) for x, y in zip(*outs) if x['o'] != y['o']), ('?', '?', '?'))
            ck.fails.append(dict(site=site, kind='outcome-depends-on-compiler', input=w[0], detail='%s gives %s, %s gives %s' % (' '.join([a.compiler] + a.flags), w[1], ' '.join([b.compiler] + b.flags), w[2]), unit=a, args=a.runs[0]))
    ck.extra_cov['sites_with_identical_outcome_logs_in_all_configurations'] = nd
    ck.extra_cov['configurations'] = [' '.join(c) for c in CFG]
    ck.tot['sites'] = len(S); return ck.finish()
