"""C12 checked_result arithmetic."""
from .core import Check, Unit, GXX, CLANG, UBSAN
from .types import *

PRO = '#include "ext.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\nint main(int c,char**v){ args(c,v); int n = atoi(v[3]); (void)n;\n'
END = 'done(); return 0; }'
RULE = ('A site is one operator on checked_result<T>; a case is one operand pair: each of the ten error states and all 8-bit values (wider types: boundaries, powers of two, '
        'values aimed at the overflow boundary, random). Non-trivial: an operand or the result is exceptional, or the result differs from both operands.')


def main(prop):
    return c13() if prop == "C13" else c12()


def c12():
    ck = Check("C12", RULE, ['the oracle is 128-bit integer arithmetic extended with two infinities and an undefined state',
                            'the value produced for an infinite dividend of % is not judged'])
    us = []
    configs = [(GXX, ['-O1']), (CLANG, ['-O1']), (GXX, ['-O2', '-DNDEBUG']), (CLANG, ['-O0'])]
    if not ck.thorough: configs = configs[:2]
    for k, (cc, fl) in enumerate(configs):
        for i, t in enumerate(INTS):
            us.append(Unit('e%d_%d' % (k, i), PRO, [(short(t[0]), 'ext_type<%s>("%s",n);' % (t[0], short(t[0])))], END, compiler=cc, flags=fl + UBSAN,
                           runs=[(ck.seed * 5 + j, ck.tier[0], 400 if ck.thorough else 60) for j in range(3 if ck.thorough else 1)]))
    ck.go(us)
    return ck.finish()


PROI = PRO.replace('ext.hpp', 'ival.hpp')
RULEI = ('A site is one interval operator or the predicates over one bound type; a case is one point (pair) of one interval pair: all intervals with bounds within [-6,6] and all their points, '
         'and random intervals (extreme, narrow, crossing zero, infinite bounds) with their end points, interior points and, for infinite bounds, points beyond the limits. Non-trivial: the point result differs from both points, or a predicate.')


def c13():
    ck = Check('C13', RULEI, ['plain intervals: the operations documented preconditions hold (results representable, divisor without zero, valid shift counts)',
                              'the operands of extended intervals have a value or -inf below and a value or +inf above'])
    us = []
    configs = [(GXX, ['-O1']), (CLANG, ['-O1']), (GXX, ['-O2', '-DNDEBUG']), (CLANG, ['-O0'])]
    if not ck.thorough: configs = configs[:2]
    n = 60000 if ck.thorough else 4000
    runs = [(ck.seed * 3 + j, ck.tier[0], n) for j in range(2 if ck.thorough else 1)]
    for k, (cc, fl) in enumerate(configs):
        L = []
        for t in INTS:
            L.append((short(t[0]), 'ival_default<%s>("%s"); ival_random<sn::checked_result<%s>>("checked %s",n,true);' % (t[0], short(t[0]), t[0], short(t[0]))))
            if t[1] >= 32: L.append(('plain ' + short(t[0]), 'ival_random<%s>("%s",n,false); ival_small<%s>("%s",%d);' % (t[0], short(t[0]), t[0], short(t[0]), (7 if ck.thorough else 5) if t[2] else (9 if ck.thorough else 7))))
        for i, l in enumerate(L):
            us.append(Unit('i%d_%d' % (k, i), PROI, [l], END, compiler=cc, flags=fl + UBSAN, runs=runs))
    ck.go(us)
    return ck.finish()
