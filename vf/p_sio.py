"""C16 stream input and output."""
from .core import Check, Unit, GXX, CLANG, UBSAN, split
from .types import *

RULE = ('A site is one safe type with one stream character type; a case is one read of one text under one failure schedule (end of file or an exception of the buffer at a chosen character, '
        'exception mask, earlier state) or one write and read back. Every failure point of a quarter of the texts is visited.')
PRO = '#include "sio.hpp"\nVF_MON_GLOBALS\nnamespace mon { std::vector<int> iolog; }\nusing namespace mon;\nint main(int c,char**v){ args(c,v); int n = atoi(v[3]); (void)n;\n'
END = 'done(); return 0; }'


def main(prop):
    ck = Check(prop, RULE, ['the classic locale and one with digit grouping', 'minus zero read into an unsigned type may be accepted or rejected', 'under a policy that ignores errors only stream failures are judged to leave the object alone'])
    rng = ck.rng; S = []; n = 900 if ck.thorough else 90
    types = []
    for t in INTS + [('long long', 64, 1), ('unsigned long long', 64, 0), ('wchar_t', 32, 1), ('char', 8, 1)]:
        types.append(safe(t)); types.append(safe(t, 'sn::automatic')); types.append(safe(t, 'sn::native', 'IgnoreLog', ' ignoring'))
    for k in range(400 if ck.thorough else 60):
        lo, hi, s = rand_range(rng); P = rng.choice(['sn::native', 'sn::automatic'])
        types.append((srange if s else urange)(lo, hi, P, tag=' ' + P[4:8]))
    for k, T in enumerate(types):
        C = 'wchar_t' if rng.random() < .3 else 'char'
        sid = '%s/%s#%d' % (T.name, C, k)
        S.append((sid, 'SIO<%s,%s>::go("%s",n);' % (T.cxx, C, sid)))
    for k in range(60 if ck.thorough else 20):
        L = rand_lit(rng); S.append(('print ' + L.name + ' %d' % k, 'lit_out<%s>("%s",parse("%d"));' % (L.cxx, 'print ' + L.name, L.lo)))
    rng.shuffle(S)
    us = [Unit('s%d' % i, PRO, part, END, compiler=(GXX, CLANG)[i % 2], flags=['-O1'] + UBSAN, runs=[(ck.seed, ck.tier[0], n)]) for i, part in enumerate(split(S, 64 if ck.thorough else 16))]
    ck.go(us)
    return ck.finish()
