"""Build/run/verdict core shared by all checks."""
import os, sys, json, time, shutil, subprocess, tempfile, random, re, signal, atexit, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = int(os.environ.get('VF_JOBS', '8'))
GUARD = ['-I', REPO + '/include'] + (['-I', '/opt/vp/guard'] if os.path.isdir('/opt/vp/guard') else []) + ['-I', HARNESS]
BASE = ['-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS']
UBSAN = ['-fsanitize=undefined', '-fsanitize-trap=undefined', '-fno-sanitize=vptr']
GXX, CLANG = 'g++', 'clang++'


class HarnessError(Exception):
    pass


class Unit:
    """One generated program: prologue + one line per site + epilogue; one or more runs of it."""
    def __init__(self, name, prologue, lines, epilogue, compiler=GXX, flags=None, runs=((),), extra=(), env=None,
                 timeout=400, link=()):
        self.name = name; self.prologue = prologue; self.lines = list(lines); self.epilogue = epilogue
        self.compiler = compiler; self.flags = list(flags if flags is not None else ['-O1'] + UBSAN)
        self.runs = [list(r) for r in runs]; self.extra = list(extra)   # extra: [(filename, text)] further TUs
        self.env = dict(env or {}); self.timeout = timeout; self.link = list(link)
        self.binary = None

    def text(self, lines=None):
        return self.prologue + '\n' + '\n'.join(t for _, t in (self.lines if lines is None else lines)) + '\n' + self.epilogue + '\n'


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf.%s.' % prop)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.fails = []          # dict(site, kind, input, detail, unit)
        self.samples = []
        self.tot = dict(n=0, nontriv=0, val=0, err=0, trap=0, sites=0)
        self.feat = {}
        self.units_built = 0
        self.inconclusive = []
        self.extra_cov = {}; self.modes = {}

    # ---- building ----
    def _cc(self, unit, src, out, syntax=False):
        cmd = [unit.compiler] + BASE + unit.flags + GUARD + (['-fsyntax-only'] if syntax else []) + src + \
              ([] if syntax else ['-o', out] + unit.link)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, preexec_fn=_limits)
        except subprocess.TimeoutExpired:
            return 124, 'compiler timeout'
        return p.returncode, p.stdout.decode('utf-8', 'replace')

    def _build(self, u):
        d = os.path.join(self.scratch, u.name); os.makedirs(d, exist_ok=True)
        src = os.path.join(d, 'main.cpp'); open(src, 'w').write(u.text())
        srcs = [src]
        for fn, text in u.extra:
            open(os.path.join(d, fn), 'w').write(text)
            if fn.endswith('.cpp'):
                srcs.append(os.path.join(d, fn))
        out = os.path.join(d, 'prog')
        rc, log = self._cc(u, srcs, out)
        if rc == 124 or 'Killed' in log or 'out of memory' in log.lower():
            rc, log = self._cc(u, srcs, out)
        if rc == 0:
            u.binary = out
        return rc, log

    def _smoke(self, comp):
        u = Unit('smoke_' + comp.replace('+', 'x'), '#include "mon.hpp"\nVF_MON_GLOBALS\nint main(){ boost::safe_numerics::safe<int> x(1); return x + 1 == 2 ? 0 : 1; }', [], '', compiler=comp)
        rc, log = self._build(u)
        return rc == 0, log

    def build(self, units):
        # the language mode is part of the workload
        for i, u in enumerate(units):
            if not any(f.startswith('-std=') for f in u.flags):
                std = ('c++14', 'c++17', 'c++14', 'c++20')[(i // 2 + i // 8) % 4]
                if std != 'c++14': u.flags = u.flags + ['-std=' + std]
                self.modes[std] = self.modes.get(std, 0) + 1
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(self._build, units))
        for u, (rc, log) in zip(units, res):
            if rc == 0:
                self.units_built += 1; continue
            rejected = [f for f in self.fails if f['kind'] == 'rejected-by-compiler']
            if rejected and (len({id(f['unit']) for f in rejected}) >= 3 or time.time() - self.t0 > 240):
                # the verdict is a violation already; don't spend the time on locating more of the same
                self.extra_cov['units not built'] = self.extra_cov.get('units not built', 0) + 1
                continue
            ok, slog = self._smoke(u.compiler)
            if not ok:
                raise HarnessError('library smoke program does not compile with %s:\n%s' % (u.compiler, slog[-3000:]))
            d = os.path.join(self.scratch, u.name); src = os.path.join(d, 'empty.cpp'); open(src, 'w').write(u.text([]))
            erc, elog = self._cc(u, [src], None, syntax=True)
            if erc not in (0, 124):
                raise HarnessError('the monitor itself does not compile (unit %s):\n%s' % (u.name, elog[-3000:]))
            bad = self._bisect(u)
            if not bad:
                raise HarnessError('unit %s does not compile and no single site explains it:\n%s' % (u.name, log[-4000:]))
            for (sid, text), l in bad:
                msg = next((x for x in l.splitlines() if 'error' in x), l[:300])
                msg = msg.replace(self.scratch, '')
                self.fails.append(dict(site=sid, kind='rejected-by-compiler', input=text.strip()[:300], detail=msg[:400], unit=u, lines=[(sid, text)]))
            badids = {b[0][0] for b in bad}
            u.lines = [x for x in u.lines if x[0] not in badids]
            rc, log = self._build(u)
            if rc:
                self.inconclusive.append('unit %s still fails to compile without the rejected sites' % u.name)
            else:
                self.units_built += 1

    def _bisect(self, u):
        def one(i):
            sid, text = u.lines[i]
            d = os.path.join(self.scratch, u.name + '_b'); os.makedirs(d, exist_ok=True)
            src = os.path.join(d, '%d.cpp' % i); open(src, 'w').write(u.text([u.lines[i]]))
            for fn, t in u.extra:
                open(os.path.join(d, fn), 'w').write(t)
            rc, log = self._cc(u, [src], None, syntax=True)
            return rc, log
        # group test first to avoid compiling hundreds of singletons
        def group(idx):
            d = os.path.join(self.scratch, u.name + '_b'); os.makedirs(d, exist_ok=True)
            src = os.path.join(d, 'g%d.cpp' % idx[0]); open(src, 'w').write(u.text([u.lines[i] for i in idx]))
            for fn, t in u.extra:
                open(os.path.join(d, fn), 'w').write(t)
            rc, log = self._cc(u, [src], None, syntax=True)
            return rc != 0
        n = len(u.lines); step = max(1, n // 16)
        groups = [list(range(i, min(n, i + step))) for i in range(0, n, step)]
        with ThreadPoolExecutor(JOBS) as ex:
            badg = [g for g, b in zip(groups, ex.map(group, groups)) if b]
            todo = [i for g in badg[:2] for i in g]
            res = list(ex.map(one, todo))
            # remaining bad groups are dropped as a whole (already one witness each is enough)
        out = [((u.lines[i]), l) for i, (rc, l) in zip(todo, res) if rc not in (0, 124)]
        if out and len(badg) > 2:
            drop = {u.lines[i][0] for g in badg[2:] for i in g}
            u.lines = [x for x in u.lines if x[0] not in drop]
            self.inconclusive.append('%d further site groups of %s not built' % (len(badg) - 2, u.name))
        return out

    # ---- running ----
    def _run1(self, u, args):
        env = dict(os.environ); env.update(u.env); env['LC_ALL'] = 'C'
        try:
            p = subprocess.run([u.binary] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=u.timeout, env=env, cwd=os.path.dirname(u.binary), preexec_fn=_limits)
            return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('utf-8', 'replace'), ''

    def run(self, units):
        jobs = [(u, r) for u in units if u.binary for r in u.runs]
        def go(j):
            u, r = j
            res = self._run1(u, r)
            if res[0] == 'timeout':
                res = self._run1(u, r)      # once more before calling it a hang
            return res
        with ThreadPoolExecutor(JOBS) as ex:
            out = list(ex.map(go, jobs))
        for (u, r), (rc, so, se) in zip(jobs, out):
            self._collect(u, r, rc, so, se)
        return out

    def _collect(self, u, r, rc, so, se):
        at = None; done = False
        for line in so.splitlines():
            if not line.startswith('{'):
                continue
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            t = rec.get('t')
            if t == 'at': at = rec['site']
            elif t == 'fail':
                self.fails.append(dict(site=rec['site'], kind=rec['kind'], input=rec['input'], detail=rec['detail'], unit=u, args=r))
            elif t == 'sample':
                self.samples.append(rec['s'])
            elif t == 'done':
                done = True
                for k in self.tot:
                    self.tot[k] += rec.get(k, 0)
                for k, v in rec.get('feat', {}).items():
                    self.feat[k] = self.feat.get(k, 0) + v
        if not done:
            if rc == 'timeout':
                kind, det = 'hang', 'no result within %d s, twice' % u.timeout
            else:
                kind, det = 'crash', 'process ended with status %s; %s' % (rc, se[-300:])
            self.fails.append(dict(site=at or u.name, kind=kind, input='', detail=det, unit=u, args=r))
        elif rc != 0:
            self.fails.append(dict(site=u.name, kind='sanitizer-report', input='', detail='exit status %s: %s' % (rc, se[-600:]), unit=u, args=r))

    def go(self, units):
        self.build(units)
        self.run(units)

    # ---- verdict ----
    def known(self):
        fn = os.path.join(VERIF, 'known_findings.json')
        try:
            return [k for k in json.load(open(fn))['findings'] if k['property'] == self.prop]
        except FileNotFoundError:
            return []

    def finish(self, level='exploration'):
        known = self.known(); hit = {}; new = []
        for f in self.fails:
            key = '%s|%s|%s' % (f['site'], f['kind'], f['input'])
            k = next((k for k in known if re.fullmatch(k['match'], key)), None)
            if k: hit.setdefault(k['id'], (k, f))
            else: new.append(f)
        for k in known:
            if k['id'] in hit or k.get('always', True):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rdir = os.path.join(VERIF, 'evidence', 'replay', self.prop)
        shutil.rmtree(rdir, ignore_errors=True)
        seen = set(); shown = 0
        for f in new:
            sig = (f['site'], f['kind'])
            if sig in seen: continue
            seen.add(sig); shown += 1
            if shown > int(os.environ.get("VF_SHOW", "5")): continue
            path = self._replay(rdir, shown, f)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  site=%s kind=%s input=[%s]\n    %s' % (f['site'], f['kind'], f['input'], f['detail']))
        if shown > 5:
            print('  ... and %d more failing sites' % (shown - 5))
        cov = dict(evaluations=self.tot['n'], distinct_nontrivial=self.tot['nontriv'], rule=self.rule,
                   samples=self.samples[:12] or ['(none recorded)'], sites=self.tot['sites'], programs_built=self.units_built,
                   outcomes=dict(value=self.tot['val'], error=self.tot['err'], trap=self.tot['trap']),
                   observed=dict(sorted(self.feat.items())))
        cov.update(self.extra_cov)
        if self.modes: cov["language modes (programs)"] = self.modes
        if self.inconclusive: cov['inconclusive'] = self.inconclusive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(seen))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        if new:
            return 1
        if self.tot['n'] == 0 or self.tot['nontriv'] == 0:
            print('%s: nothing observed: inconclusive' % self.prop); return 2
        if self.inconclusive:
            print('%s: inconclusive: %s' % (self.prop, self.inconclusive)); return 2
        print('%s: held on %d evaluations (%d non-trivial) at %d sites, %.1f s' % (self.prop, self.tot['n'], self.tot['nontriv'], self.tot['sites'], time.time() - self.t0))
        return 0

    def _replay(self, rdir, n, f):
        d = os.path.join(rdir, str(n)); os.makedirs(d, exist_ok=True)
        u = f.get('unit')
        json.dump({k: f[k] for k in ('site', 'kind', 'input', 'detail')} | dict(seed=self.seed, tier=self.tier, property=self.prop), open(os.path.join(d, 'violation.json'), 'w'), indent=1)
        if u is not None:
            lines = f.get('lines') or [x for x in u.lines if x[0] == f['site']] or u.lines
            open(os.path.join(d, 'main.cpp'), 'w').write(u.text(lines))
            srcs = ['main.cpp']
            for fn, t in u.extra:
                open(os.path.join(d, fn), 'w').write(t)
                if fn.endswith('.cpp'): srcs.append(fn)
            cmd = ' '.join([u.compiler] + BASE + u.flags + GUARD + srcs + ['-o', '/tmp/vf_replay_prog'] + u.link)
            envs = ' '.join("%s='%s'" % kv for kv in u.env.items())
            open(os.path.join(d, 'replay.sh'), 'w').write('#!/bin/sh\n# rebuilds and reruns just the failing site; look for "t":"fail" lines\ncd "$(dirname "$0")" || exit 2\n%s || exit 1\n%s /tmp/vf_replay_prog %s\n' % (cmd, envs, ' '.join(str(a) for a in f.get('args', []))))
        return os.path.join(d, 'replay.sh' if u is not None else 'violation.json')


def split(seq, n):
    seq = list(seq); n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]
