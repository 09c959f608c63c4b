"""C01..C06: operators against the __int128 oracle."""
from .core import Check
from . import ops as O


def finish(ck, units):
    for u in units:
        for r in u.runs:
            if r and r[0] == '__SEED__': r[0] = ck.seed; r[1] = ck.tier[0]
    ck.go(units)
    return ck.finish()

RULE = ('A site is one operator instantiated for one pair of operand types (base type, declared range, literal or built-in); a case is one pair of '
        'operand values at one site (boundaries, powers of two +-1, values aimed at the edge of the result type, random; all values when the range is small). '
        'Cases are distinct by construction; non-trivial: the operation reported or its result differs from both operands.')


def c01(ck):
    g = 1.0 if ck.thorough else .34
    s = O.grid('NATIVE', O.ARITH, ck.rng, mixed=g)
    s += O.randoms('NATIVE', O.ARITH + ['neg'], ck.rng, 18000 if ck.thorough else 1300)
    s += O.corners('NATIVE', O.ARITH + ['/', '%', 'neg'], ck.rng, 6000 if ck.thorough else 900)
    s += [O.site('neg', O.safe(t), O.safe(t), 'NATIVE') for t in O.INTS]
    return O.units(s, O.J_EXACT, 60 if ck.thorough else 14, 300 if ck.thorough else 40, ck.rng, 160 if ck.thorough else 24)


def c02(ck):
    s = O.grid('AUTOMATIC', O.ARITH, ck.rng, mixed=1 if ck.thorough else .1, same=1 if ck.thorough else .6)
    s += O.randoms('AUTOMATIC', O.ARITH + ['neg'], ck.rng, 18000 if ck.thorough else 1500)
    s += O.corners('AUTOMATIC', O.ARITH + ['/', '%', 'neg'], ck.rng, 6000 if ck.thorough else 900)
    return O.units(s, O.J_EXACT, 60 if ck.thorough else 14, 300 if ck.thorough else 40, ck.rng, 160 if ck.thorough else 24)


def c03(ck):
    s = []
    for pol in ('NATIVE', 'AUTOMATIC'):
        s += O.grid(pol, O.BITS + O.SHIFTS, ck.rng, mixed=1 if ck.thorough else .08, same=1 if ck.thorough else .5)
        s += O.randoms(pol, O.SHIFTS * 2 + O.BITS + ['~'], ck.rng, 8000 if ck.thorough else 800)
        s += O.corners(pol, O.SHIFTS * 3 + O.BITS + ['~'], ck.rng, 4000 if ck.thorough else 500)
        s += [O.site('~', O.safe(t, O.POL[pol]), O.safe(t, O.POL[pol]), pol) for t in O.INTS]
    return O.units(s, O.J_EXACT, 60 if ck.thorough else 14, 300 if ck.thorough else 70, ck.rng, 160 if ck.thorough else 24)


def c04(ck):
    s = []
    for pol in ('NATIVE', 'AUTOMATIC'):
        s += O.grid(pol, O.ARITH + O.SHIFTS, ck.rng, mixed=1 if ck.thorough else .08, same=1 if ck.thorough else .4)
        s += O.randoms(pol, O.ARITH + O.SHIFTS + ['neg'], ck.rng, 8000 if ck.thorough else 700)
        s += O.corners(pol, O.ARITH + O.SHIFTS + ['neg'], ck.rng, 4000 if ck.thorough else 500)
    return O.units(s, O.J_SPURIOUS, 60 if ck.thorough else 14, 300 if ck.thorough else 40, ck.rng, 160 if ck.thorough else 24)


def c05(ck):
    s = []
    allops = O.ARITH + O.SHIFTS + O.BITS
    for pol in ('NATIVE', 'AUTOMATIC'):
        s += O.grid(pol, allops, ck.rng, mixed=1 if ck.thorough else .08, same=1 if ck.thorough else .35)
        s += O.randoms(pol, allops + ['neg', '~'], ck.rng, 8000 if ck.thorough else 700)
        s += O.corners(pol, allops + ['neg', '~'], ck.rng, 3000 if ck.thorough else 400)
    return O.units(s, O.J_TYPE, 4, 12, ck.rng, 160 if ck.thorough else 24)



EPRO = '#include "expr.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n'


def tree(ck, k):
    rng = ck.rng; pol = rng.choice(['NATIVE', 'AUTOMATIC', 'AUTOMATIC']); P = O.POL[pol]
    nops = rng.randrange(2, 6)
    leaves = []; code = []; desc = []; avail = []   # avail: (var, has policy, text)
    def leaf(op=None):
        small = rng.random() < .6
        if op in O.SHIFTS: T = O.shift_count(rng, P)
        else:
            T = O.operand(rng, P, small=small)
        i = len(leaves); leaves.append(T)
        return ('l%d' % i, O.haspol(T), T.name)
    cur = []
    for j in range(nops):
        op = rng.choice(O.ARITH * 3 + O.SHIFTS + O.BITS)
        a = cur.pop() if cur and rng.random() < .85 else leaf()
        b = cur.pop(0) if cur and op not in O.SHIFTS and rng.random() < .5 else leaf(op)
        if not (a[1] or b[1]):
            T = rand_range_ty_(rng, P); leaves.append(T); a = ('l%d' % (len(leaves) - 1), True, T.name)
        if rng.random() < .5 and op not in O.SHIFTS: a, b = b, a
        code.append('auto n%d = R.node<%s>(%s,%s);' % (j, O.F[op], a[0], b[0]))
        cur.append(('n%d' % j, True, '(%s%s%s)' % (a[2], op, b[2])))
        if rng.random() < .12:
            code.append('auto m%d = R.node<%s>(n%d,n%d);' % (j, 'FNeg' if pol == 'AUTOMATIC' or rng.random() < .5 else 'FNot', j, j))
            cur[-1] = ('m%d' % j, True, '-~' + cur[-1][2])
    sid = '%s:%s#%d' % (pol[:4].lower(), ' '.join(c[2] for c in cur), k)
    mk = ''.join('const %s l%d = maker<%s >::make(L[%d]); (void)l%d; ' % (T.cxx, i, T.cxx, i, i) for i, T in enumerate(leaves))
    text = 'static void f%d(const i128 * L, Rec & R){ %s%s } static struct Z%d { Z%d(){ trees().push_back(Tree{"%s",{%s},&f%d}); } } z%d;' % (
        k, mk, ' '.join(code), k, k, sid, ','.join('tinfo<%s >()' % T.cxx for T in leaves), k, k)
    return sid, text


def rand_range_ty_(rng, P):
    from .types import rand_range_ty
    return rand_range_ty(rng, P)


def c06(ck):
    s = []
    allops = O.ARITH + O.SHIFTS + O.BITS
    for pol in ('NATIVE', 'AUTOMATIC'):
        s += O.grid(pol, allops, ck.rng, mixed=.5 if ck.thorough else .03, same=.8 if ck.thorough else .15)
        s += O.randoms(pol, allops + ['neg', '~'], ck.rng, 5000 if ck.thorough else 300)
        s += O.corners(pol, allops + ['neg', '~'], ck.rng, 3000 if ck.thorough else 300)
    us = O.units(s, O.J_RANGE, 60 if ck.thorough else 14, 300 if ck.thorough else 40, ck.rng, 64 if ck.thorough else 12)
    trees = [tree(ck, k) for k in range(3000 if ck.thorough else 360)]
    from .core import Unit, GXX, CLANG, split
    for i, part in enumerate(split(trees, 80 if ck.thorough else 16)):
        us.append(Unit('expr%d' % i, EPRO, part, 'int main(int c,char**v){ return expr_main(c,v); }', compiler=(GXX, CLANG)[i % 2],
                       runs=[('__SEED__', 'q', 6000 if ck.thorough else 1500, 2000 if ck.thorough else 700)]))
    return us


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06}


def main(prop):
    ck = Check(prop, RULE, ['the oracle is exact 128-bit integer arithmetic', 'UBSan (trap mode) and hardware signals define "undefined behaviour"'])
    return finish(ck, CHECKS[prop](ck))
