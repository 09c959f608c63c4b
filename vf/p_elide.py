"""C15 elision of run-time checks."""
import os, json
from concurrent.futures import ThreadPoolExecutor
from .core import Check, Unit, GXX, CLANG, UBSAN, split, JOBS, HarnessError
from .types import *
from . import ops as O

RULE = ('A site is an operator or conversion for one pair of declared ranges with an exception policy of its own whose actions register themselves when instantiated; '
        'a case is one operand pair run at that site. Non-trivial: no check is compiled in (the value must then be exact unaided) or an error was reported. '
        'In addition a sample of sites is compiled under the trapping policies and the verdict of the compiler compared with what was observed.')
PRO = '#include "elide.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\nint main(int c,char**v){ args(c,v);\n'
END = 'return elide_main(c,v); }'


def gen(ck, n):
    rng = ck.rng; out = []; k = 0
    while len(out) < n:
        pol = rng.choice(['NATIVE', 'AUTOMATIC']); P = O.POL[pol]; E = 'EP<%d>' % k
        def operand(small=False):
            z = rng.random()
            if z < .68: lo, hi, s = rand_range(rng, small=small); return (srange if s else urange)(lo, hi, P, E)
            if z < .8: return safe(rng.choice(INTS), P, E)
            if z < .9: return rand_lit(rng)
            return builtin(rng.choice(INTS))
        if rng.random() < .22:
            small = rng.random() < .5
            S, T = operand(small), operand(small)
            if rng.random() < .4 and O.haspol(T):    # ranges sharing an end, or off by one
                lo, hi = T.lo + rng.choice([-1, 0, 0, 1]), T.hi + rng.choice([-1, 0, 0, 1])
                if lo > hi or lo < -(1 << 63) or hi > (1 << 63) - 1: continue
                S = srange(lo, hi, P, E)
            if T.kind == 'literal' or not (O.haspol(S) or O.haspol(T)) or S.lo > T.hi or S.hi < T.lo: continue
            if T.kind == 'builtin' and S.kind == 'literal': continue
            tob = T.kind == 'builtin'
            sid = '%d conv %s <- %s' % (k, T.name, S.name)
            out.append((sid, 'add_ec<%s,%s,%s>(%d,"%s");' % ('true' if tob else 'false', T.cxx, S.cxx, k, sid), dict(kind='tob' if tob else 'cons', T=T, S=S, E=E, k=k)))
        else:
            op = rng.choice(O.ARITH * 3 + O.SHIFTS * 3 + O.CMPS + O.BITS + ['neg', '~'])
            small = rng.random() < .5
            T, U = operand(small), operand(small)
            if op not in O.SHIFTS + O.BITS + ['neg', '~'] and rng.random() < .5:
                z = O.corner(rng, P, E, op) if rng.random() < (.6 if op in ('/', '%') else .3) else O.near(rng, P, E, op)
                if z: T, U = z
            if op in O.SHIFTS:
                z = O.shift_count(rng, P)
                if O.haspol(z): z = (srange if z.name[0] == 's' and z.kind == 'range' else urange)(z.lo, z.hi, P, E) if z.kind == 'range' else safe(rng.choice(INTS), P, E)
                U = z
                if rng.random() < .5:     # counts around the width, so that the analysis has to be exact
                    h = rng.choice([7, 8, 15, 16, 30, 31, 32, 33, 62, 63, 64]); U = srange(rng.choice([0, 0, 1, h, -1]), h, P, E)
            if op in ('neg', '~'):
                if not O.haspol(T): continue
                U = T
            elif not (O.haspol(T) or O.haspol(U)): continue
            sid = '%d %s:%s %s %s' % (k, pol.lower()[:4], T.name, op, U.name)
            out.append((sid, 'add_e<%s,%s,%s>(%d,"%s",%s);' % (O.F[op], T.cxx, U.cxx, k, sid, pol), dict(kind='op', op=op, T=T, S=U, E=E, k=k)))
        k += 1
    return out


def probe_text(d, policy):
    t, s = d['T'].cxx.replace(d['E'], policy), d['S'].cxx.replace(d['E'], policy)
    if d['kind'] == 'op':
        expr = {'neg': '-t', '~': '~t'}.get(d['op'], 't %s u' % d['op'])
        body = 'auto probe(const %s & t, const %s & u){ return %s; }' % (t, s, expr)
    elif d['kind'] == 'cons': body = '%s probe(const %s & s){ return %s(s); }' % (t, s, t)
    else: body = '%s probe(const %s & s){ %s t = s; return t; }' % (t, s, t)
    return '#include "mon.hpp"\n' + body + '\n'


def main(prop):
    ck = Check(prop, RULE, ['"compiled in" means: the policy\'s action is instantiated for the operation', 'shifts: only the direction "no action compiled in implies exact" is judged'])
    S = gen(ck, 12000 if ck.thorough else 1300)
    meta = {s[0]: s[2] for s in S}
    us = []
    for i, part in enumerate(split([(a, b) for a, b, _ in S], 160 if ck.thorough else 24)):
        us.append(Unit('l%d' % i, PRO, part, END, compiler=(GXX, CLANG)[i % 2], flags=['-O1', '-fno-strict-aliasing'] + UBSAN, runs=[(ck.seed, ck.tier[0], 40 if ck.thorough else 14, 300 if ck.thorough else 60)]))
    ck.build(us)
    masks = {}
    for (rc, so, se) in ck.run(us):
        for line in so.splitlines():
            if line.startswith('{"t":"mask"'):
                r = json.loads(line); masks[r['site']] = r
    # the compiler's verdict under trapping policies
    jobs = []
    cand = [m for m in meta if m in masks]; ck.rng.shuffle(cand)
    for sid in cand[:900 if ck.thorough else 90]:
        pol = ck.rng.choice(['sn::strict_trap_policy', 'sn::strict_trap_policy', 'sn::loose_trap_policy'])
        jobs.append((sid, pol, ck.rng.choice([GXX, CLANG])))
    pd = os.path.join(ck.scratch, 'probe'); os.makedirs(pd)
    def go(j):
        i, (sid, pol, cc) = j
        src = os.path.join(pd, '%d.cpp' % i); text = probe_text(meta[sid], pol); open(src, 'w').write(text)
        u = Unit('probe%d' % i, text, [], '', compiler=cc, flags=['-O0'])
        rc, log = ck._cc(u, [src], None, syntax=True)
        return u, rc, log
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(go, enumerate(jobs)))
    acc = rej = 0
    for (sid, pol, cc), (u, rc, log) in zip(jobs, res):
        if rc == 124: ck.inconclusive.append('probe timed out'); continue
        m = masks[sid]; need = m['mask'] if pol == 'sn::strict_trap_policy' else m['mask'] & 1
        ck.tot['n'] += 1
        if rc == 0: acc += 1
        else: rej += 1
        msg = next((x for x in log.splitlines() if 'error' in x), '')[:300]
        if rc == 0 and need: ck.fails.append(dict(site=sid, kind='trap-policy-accepts-failing-program', input=pol, detail='an action is compiled in under a recording policy, yet the trapping policy compiles', unit=u))
        if rc != 0 and not need: ck.fails.append(dict(site=sid, kind='trap-policy-rejects', input=pol, detail='no action is compiled in under a recording policy, yet the trapping policy is rejected: ' + msg, unit=u))
    if not acc or not rej: ck.inconclusive.append('trap probes: %d accepted, %d rejected' % (acc, rej))
    ck.extra_cov['trap_probes'] = dict(accepted=acc, rejected=rej)
    return ck.finish()
