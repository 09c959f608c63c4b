"""C14 error dispatch."""
from .core import Check, Unit, GXX, CLANG, split
from .types import *
from . import ops as O

RULE = ('A site is an operator, conversion, compound assignment, increment or default construction for one operand type pair under one exception policy built from recording actions '
        '(per error class: return, throw an own exception, or delegate to throw_exception); a case is one operand pair. Non-trivial: an action ran or an exception left the operation.')
PRO = '#include "disp.hpp"\nVF_MON_GLOBALS\nnamespace mon { std::vector<Event> evlog; }\nusing namespace mon;\nint main(int c,char**v){ args(c,v);\n'
END = 'return disp_main(c,v); }'
CF = {'+': 'CAdd', '-': 'CSub', '*': 'CMul', '/': 'CDiv', '%': 'CMod'}


def operand(rng, P, E, builtin_ok=True):
    k = rng.random()
    if k < .45: return safe(rng.choice(INTS), P, E)
    if k < .7:
        lo, hi, s = rand_range(rng); return (srange if s else urange)(lo, hi, P, E)
    if k < .8: return rand_lit(rng)
    if builtin_ok: return builtin(rng.choice(INTS))
    return safe(rng.choice(INTS), P, E)


def main(prop):
    ck = Check(prop, RULE, ['the built-in result of an ignored error is that of the same expression compiled with -fwrapv; division traps and out-of-range shift counts have none and are not compared'])
    rng = ck.rng; S = []
    n = 9000 if ck.thorough else 2000
    for k in range(n):
        pol = rng.choice(['NATIVE', 'NATIVE', 'AUTOMATIC']); P = O.POL[pol]
        m = [rng.choice([0, 0, 1, 2]) for _ in range(4)]; E = 'DP<%d,%d,%d,%d>' % tuple(m); ms = ','.join(map(str, m))
        kind = rng.random()
        if kind < .62:
            op = rng.choice(O.ARITH * 2 + O.SHIFTS * 2 + O.CMPS + ['neg', '&', '~'])
            T = operand(rng, P, E); U = operand(rng, P, E)
            if op in O.SHIFTS and rng.random() < .6:
                a, b = sorted((rng.randrange(-3, 12), rng.randrange(-2, 70))); U = srange(a, b, P, E)
            if op in ('neg', '~'):
                if not O.haspol(T): continue
                U = T
            elif not (O.haspol(T) or O.haspol(U)): continue
            sid = '%s:%s %s %s {%s}' % (pol.lower()[:4], T.name, op, U.name, ms)
            S.append((sid, 'add_disp<%s,%s,%s>("%s",%s,%s);' % (O.F[op], T.cxx, U.cxx, sid, pol, ms)))
        else:
            T = safe(rng.choice(INTS), P, E) if rng.random() < .6 else None
            if T is None:
                lo, hi, s = rand_range(rng); T = (srange if s else urange)(lo, hi, P, E)
            st = rng.choice(['S_CONS', 'S_ASG', 'S_TOB', 'S_INC', 'S_PINC', 'S_DEC', 'S_PDEC', 'S_COMP', 'S_COMP', 'S_COMP', 'S_CONS', 'S_ASG', 'def'])
            if st == 'def':
                sid = 'default %s {%s}' % (T.name, ms); S.append((sid, 'default_site<%s>("%s",%s);' % (T.cxx, sid, ms))); continue
            U = operand(rng, P, E, True)
            op = rng.choice(O.ARITH)
            if st == 'S_TOB':
                U = T; T = builtin(rng.choice(INTS))
                if U.lo > T.hi or U.hi < T.lo: continue
            if st in ('S_CONS', 'S_ASG') and (U.lo > T.hi or U.hi < T.lo): continue
            if st in ('S_INC', 'S_PINC', 'S_DEC', 'S_PDEC'):
                U = builtin(('std::int8_t', 8, 1)); d = 1 if 'INC' in st else -1
                if T.lo == T.hi or pol == 'AUTOMATIC': continue
            if st == 'S_COMP':
                pass
            sid = '%s %s %s %s %s {%s}' % (pol.lower()[:4], st, T.name, op if st == 'S_COMP' else '', U.name, ms)
            if st == 'S_COMP':
                # a target range that the result can never meet is rejected at compile time by design
                if T.kind == 'range' or U.kind != 'safe' and U.kind != 'builtin': continue
            S.append((sid, 'add_step<%s,%s,%s,%s>("%s",%s,%s);' % (st, CF[op], T.cxx, U.cxx, sid, pol, ms)))
    # predefined policies
    PD = [('sn::loose_exception_policy', 'DP<2,0,0,0>'), ('sn::strict_exception_policy', 'DP<2,2,2,0>'), ('sn::default_exception_policy', 'DP<2,2,2,0>')]
    for k in range(900 if ck.thorough else 200):
        pol = rng.choice(['NATIVE', 'AUTOMATIC']); P = O.POL[pol]; A, B = rng.choice(PD)
        op = rng.choice(O.ARITH + O.SHIFTS * 3 + ['<', '=='])
        t, u = rng.choice(INTS), rng.choice(INTS)
        sid = 'alike %s %s %s %s %s' % (pol.lower()[:4], short(t[0]), op, short(u[0]), A[4:])
        S.append((sid, 'alike<%s,%s,%s,%s,%s>("%s",12);' % (O.F[op], safe(t, P, A).cxx, safe(u, P, A).cxx, safe(t, P, B).cxx, safe(u, P, B).cxx, sid)))
    S = O.dedup(S); rng.shuffle(S)
    # the same in programs built without exceptions: the program supplies throw_exception's operator()
    N = [('no exceptions: ' + a, b) for a, b in S if b.startswith(('add_disp', 'alike', 'default_site'))][:1600 if ck.thorough else 240]
    us = []
    for i, part in enumerate(split(S, 120 if ck.thorough else 32)):
        us.append(Unit('d%d' % i, PRO, part, END, compiler=(GXX, CLANG)[i % 2], flags=[['-O1', '-fwrapv'], ['-O0', '-fwrapv']][i // 2 % 2],
                       runs=[(ck.seed, ck.tier[0], 30 if ck.thorough else 12, 200 if ck.thorough else 30)]))
    for i, part in enumerate(split(N, 120 if ck.thorough else 60)):
        us.append(Unit('n%d' % i, PRO.replace('namespace mon {', 'void sn::throw_exception::operator()(const sn::safe_numerics_error & e, const char * m){ mon::leave_sys(mon::code_of(e), m); }\nnamespace mon {', 1), part, END,
                       compiler=(GXX, CLANG)[i % 2], flags=['-O1', '-fwrapv', '-fno-exceptions'] + ['-fno-rtti'] * (i // 2 % 2), runs=[(ck.seed, ck.tier[0], 30 if ck.thorough else 12, 200 if ck.thorough else 30)]))
    ck.go(us)
    return ck.finish()
