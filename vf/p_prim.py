"""C10 checked primitives, C11 primitive comparisons."""
from .core import Check, Unit, GXX, CLANG, UBSAN
from .types import *

PRO = '#include "prim.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\nint main(int c,char**v){ args(c,v); int n = atoi(v[3]); (void)n;\n'
END = 'done(); return 0; }'
TYPES = INTS + [('char', 8, 1), ('long long', 64, 1), ('unsigned long long', 64, 0)]
RC = ('A site is one primitive for one type (or type pair); a case is one argument tuple: every pair of 8-bit values, every value of 8/16-bit sources of '
      'casts and unary primitives, otherwise boundaries, powers of two, values aimed at the overflow boundary, random of every bit width. Non-trivial: error, or result differs from both arguments.')
RM = ('A site is one ordered type pair; a case is one of six comparison functions on one value pair: all pairs for 8-bit types, otherwise boundaries, '
      'neighbours, values equal modulo a power of two, random. Non-trivial: values differ.')


def main(prop):
    ck = Check(prop, RC if prop == 'C10' else RM, ['the oracle is 128-bit integer arithmetic'])
    us = []
    configs = [(GXX, ['-O1']), (CLANG, ['-O1']), (GXX, ['-O2']), (CLANG, ['-O0'])]
    if not ck.thorough: configs = configs[:2]
    for k, (cc, fl) in enumerate(configs):
        fl = fl + UBSAN
        for i, t in enumerate(TYPES):
            L = []
            if prop == 'C10':
                L.append((short(t[0]), 'prim_type<%s>("%s",n);' % (t[0], short(t[0]))))
                L.append((short(t[0]) + ' comparisons', 'cmp_prim<%s>("%s",n);' % (t[0], short(t[0]))))
                if i < 3: L.append((('double', 'float', 'class')[i] + ' default', 'def_type<%s>("%s",n);' % ((('double', 'double'), ('float', 'float'), ('Word', 'class'))[i])))
                for u in TYPES: L.append(('cast<%s>(%s)' % (short(t[0]), short(u[0])), 'cast_pair<%s,%s>("%s","%s",n);' % (t[0], u[0], short(t[0]), short(u[0]))))
                n = 300 if ck.thorough else 40
            else:
                for u in TYPES + [('bool', 1, 0), ('wchar_t', 32, 1)] if not ck.thorough else TYPES + EXTRA + [('bool', 1, 0)]:
                    L.append(('%s ? %s' % (short(t[0]), short(u[0])), 'cmp_pair<%s,%s>("%s","%s",n);' % (t[0], u[0], short(t[0]), short(u[0]))))
                n = 150 if ck.thorough else 40
            us.append(Unit('p%d_%d' % (k, i), PRO, L, END, compiler=cc, flags=fl, runs=[(ck.seed + k, ck.tier[0], n)]))
    ck.go(us)
    return ck.finish()
