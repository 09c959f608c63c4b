"""C24 diagnostic output."""
from .core import Check, Unit, GXX, CLANG, UBSAN, split
from .types import *
from . import ops as O

RULE = ('A site is one type (safe type or range, built-in type of an interval or checked result, literal) with one stream character type; a case is one object printed under one combination of number base, showpos, showbase and '
        'uppercase and compared with text formatted independently from 128-bit integers. Every case is non-trivial: it compares a whole printed text.')
PRO = '#include "out.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\nint main(int c,char**v){ args(c,v); int n = atoi(v[3]); (void)n;\n'
END = 'done(); return 0; }'


def main(prop):
    ck = Check(prop, RULE, ['classic locale', 'negative numbers are printed in decimal, as iostreams print their bit patterns otherwise', 'objects of plain character types (char, wchar_t) outside safe types print as characters, as they always do'])
    rng = ck.rng; S = []
    def C(): return 'wchar_t' if rng.random() < .3 else 'char'
    types = [safe(t, P) for t in INTS + [('char', 8, 1), ('long long', 64, 1), ('unsigned long long', 64, 0)] for P in ('sn::native', 'sn::automatic')]
    for k in range(900 if ck.thorough else 110): types.append(rand_range_ty(rng, rng.choice(['sn::native', 'sn::automatic'])))
    for k, T in enumerate(types):
        c = C(); sid = '%s/%s#%d' % (T.name, c, k); S.append((sid, 'range_out<%s,%s>("%s",n);' % (T.cxx, c, sid)))
    for t in INTS + [('long long', 64, 1), ('unsigned long long', 64, 0)]:
        for c in ('char', 'wchar_t'):
            sid = 'built-in %s/%s' % (short(t[0]), c); S.append((sid, 'prim_out<%s,%s>("%s",n);' % (t[0], c, sid)))
        sid = 'errors %s' % short(t[0]); S.append((sid, 'error_out<%s>("%s");' % (t[0], sid)))
    for k in range(300 if ck.thorough else 40):
        L = rand_lit(rng); c = C(); sid = 'literal %s/%s#%d' % (L.name, c, k); S.append((sid, 'lit_print<%s,%s>("%s",parse("%d"));' % (L.cxx, c, sid, L.lo)))
    rng.shuffle(S)
    us = [Unit('s%d' % i, PRO, part, END, compiler=(GXX, CLANG)[i % 2], flags=['-O1'] + UBSAN, runs=[(ck.seed, ck.tier[0], 300 if ck.thorough else 40)]) for i, part in enumerate(split(S, 64 if ck.thorough else 16))]
    ck.go(us)
    return ck.finish()
