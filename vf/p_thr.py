"""C20 threads and histories."""
import json
from .core import *
from . import ops as O
from .types import *

RULE = ('A site is one kind of operation on one operand type pair; an event is one operation with fixed operand values on objects of the executing thread and shared constant objects. A case is one execution of an '
        'event by one thread, or in one sequential replay, whose outcome (value, code, message) is compared with that of every other execution of the event. Every case is a comparison of two executions.')
TS = ['-fsanitize=thread', '-g']


def main(prop):
    ck = Check(prop, RULE, ['ThreadSanitizer sees the header-only library completely; libstdc++ itself is not instrumented', 'schedules are sampled, with yields and sleeps injected between operations'])
    rng = ck.rng; S = {}
    n = 1600 if ck.thorough else 260
    while len(S) < n:
        pol = rng.choice(['NATIVE', 'AUTOMATIC']); P = O.POL[pol]
        k = rng.choice(['EOp', 'EOp', 'EOp', 'EOp', 'EShL', 'EShR', 'ECopy', 'EConv', 'EHist', 'EStream', 'EErr', 'EChk', 'EIval'])
        T = O.operand(rng, P, allow_lit=k in ('EOp',), allow_builtin=k in ('EOp',)); U = O.operand(rng, P, allow_lit=k in ('EOp',)); op = '+'
        if k in ('EOp', 'EShL', 'EShR'):
            op = rng.choice(O.ARITH * 2 + O.SHIFTS + O.BITS + O.CMPS)
            if op in O.SHIFTS and rng.random() < .7 and k != 'EShR': U = O.shift_count(rng, P)
            if k == 'EShR' and U.kind == 'builtin': continue
            if not (O.haspol(T) or O.haspol(U)): continue
        elif k in ('EHist',): T = safe(rng.choice(INTS), 'sn::native'); U = builtin(rng.choice(INTS))
        elif k == 'EConv':
            if T.lo > U.hi or U.lo > T.hi: continue
        elif k == 'EStream': T = safe(rng.choice(INTS), P); U = builtin(rng.choice(INTS))
        elif k == 'ECopy': U = O.operand(rng, P, allow_lit=False, allow_builtin=False)
        elif k in ('EErr', 'EChk', 'EIval'): T = builtin(rng.choice(INTS)); U = T
        sid = '%s %s %s %s %s' % (k, pol[:4].lower(), T.name, op, U.name)
        S[sid] = 'add_thr<%s,%s,%s,%s>("%s");' % (k, O.F[op], T.cxx, U.cxx, sid)
    S = list(S.items()); rng.shuffle(S); us = []; groups = []
    for i, part in enumerate(split(S, 24 if ck.thorough else 4)):
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, x, j)) for j, (sid, x) in enumerate(part)]
        g = []
        for c, fl in [(GXX, ['-O1'] + TS), (CLANG, ['-O1'] + TS), (GXX, ['-O2']), (CLANG, ['-O2'])]:
            tsan = '-g' in fl
            rounds = (12 if ck.thorough else 4) if tsan else (30 if ck.thorough else 10)
            runs = [(ck.seed, ck.tier[0], 101 * ck.seed + o, 24 if ck.thorough else 16, 12, rounds) for o in range(4 if ck.thorough else 2)]
            u = Unit('thr%d%s%s' % (i, c.replace('+', 'x'), 'ts' if tsan else ''), '#include "thr.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n', lines, 'int main(int c,char**v){ return thr_main(c,v); }',
                     compiler=c, flags=fl, runs=runs, link=['-pthread'], env=dict(TSAN_OPTIONS='halt_on_error=0:exitcode=66:second_deadlock_stack=1') if tsan else {})
            us.append(u); g.append(u)
        groups.append(g)
    ck.build(us)
    # run with ThreadSanitizer's address space needs taken care of
    real = ck._run1
    def run1(u, args):
        rc, so, se = real(u, args)
        for _ in range(3):
            if 'unexpected memory mapping' in se: rc, so, se = real(u, args)
        if 'unexpected memory mapping' in se:
            b = u.binary; u.binary = 'setarch'; rc, so, se = real(u, ['-R', b] + list(args)); u.binary = b
        return rc, so, se
    ck._run1 = run1
    jobs = [(u, r) for u in us if u.binary for r in u.runs]
    with ThreadPoolExecutor(3) as ex:       # each program has many threads of its own
        res = list(ex.map(lambda j: run1(*j), jobs))
    digest = {}
    for (u, r), (rc, so, se) in zip(jobs, res):
        if '-g' in u.flags:
            if 'FATAL: ThreadSanitizer' in se: ck.inconclusive.append('ThreadSanitizer does not start here: ' + se[:200]); continue
            for rep in se.split('WARNING: ThreadSanitizer: ')[1:]:
                frames = [l.strip() for l in rep.splitlines() if re.match(r'\s+#\d+', l)]
                lib = [f for f in frames if 'safe_numerics' in f]
                kind = rep.split('(')[0].strip().replace(' ', '-')
                sig = re.sub(r'0x[0-9a-f]+|\(.*?\)$', '', (lib or frames or ['?'])[0])[:200]
                ck.fails.append(dict(site=re.sub(r'^#\d+ ', '', sig), kind=kind, input='', detail=' | '.join(rep.splitlines()[:14]).replace(ck.scratch, '')[:700], unit=u, args=r))
            ck.feat['ThreadSanitizer runs'] = ck.feat.get('ThreadSanitizer runs', 0) + 1
            if rc == 66: rc = 0
        ck._collect(u, r, rc, so, se)
        for line in so.splitlines():
            if line.startswith('{"t":"digest"'):
                d = json.loads(line); digest.setdefault(d['site'], {}).setdefault(d['h'], []).append((u, r))
    for site, m in digest.items():
        if len(m) > 1:
            (a, ra), (b, rb) = [v[0] for v in list(m.values())[:2]]
            ck.fails.append(dict(site=site, kind='result-depends-on-process-history', input='', detail='outcomes of the same operations differ between processes that executed them in different orders (%s and %s)' % (' '.join([a.compiler] + a.flags), ' '.join([b.compiler] + b.flags)), unit=a, args=ra))
    ck.extra_cov['processes_compared'] = len(jobs)
    ck.tot['sites'] = len(S); return ck.finish()
