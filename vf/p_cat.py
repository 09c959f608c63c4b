"""C19 identity of error codes across translation units."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import *

RULE = ('A site is one kind of comparison in one program configuration (compilers, optimisation levels, static or shared linking, header orders of its translation units); a case is one code, obtained in one way '
        'in one unit, compared in another unit with one enumerator, condition, message or other code. Every case compares across units or representations and is non-trivial.')
HEADERS = ['exception.hpp', 'exception_policies.hpp', 'checked_result.hpp', 'checked_result_operations.hpp', 'checked_default.hpp', 'checked_integer.hpp', 'interval.hpp', 'safe_base.hpp',
           'safe_integer.hpp', 'safe_integer_range.hpp', 'safe_integer_literal.hpp', 'native.hpp', 'automatic.hpp', 'cpp.hpp', 'utility.hpp', 'safe_common.hpp', 'safe_compare.hpp']

LATE = ('native.hpp', 'checked_default.hpp')      # need others to be included before them


def main(prop):
    ck = Check(prop, RULE, ['shared libraries are linked in the usual way (default visibility)', 'only the documented enumerators are used as codes'])
    rng = ck.rng
    for c in (GXX, CLANG):
        ok, log = ck._smoke(c)
        if not ok: raise HarnessError('library smoke program does not compile with %s:\n%s' % (c, log[-3000:]))
    configs = []
    for k in range(40 if ck.thorough else 8):
        n = rng.choice([2, 3, 4, 5, 6] if ck.thorough else [2, 3, 4])
        tus = []
        comp = [(GXX,), (CLANG,), (GXX, CLANG)][k % 3]
        for i in range(n):
            tus.append(dict(cc=rng.choice(comp), opt=rng.choice(['-O0', '-O1', '-O2', '-O3']), std=rng.choice(['-std=c++14', '-std=c++14', '-std=c++17']), lib=rng.choice([0, 0, 1, 2]) if k % 2 else 0, ndebug=rng.random() < .5,
                            san=[] if k % 4 else ['-fsanitize=undefined', '-fsanitize-trap=undefined', '-fno-sanitize=vptr']))
        configs.append(tus)
    us = []; jobs = []
    for k, tus in enumerate(configs):
        d = os.path.join(ck.scratch, 'c%d' % k); os.makedirs(d)
        link = rng.choice(sorted({t['cc'] for t in tus}))
        cfg = '#%d %s' % (k, ', '.join('%s%s%s%s' % (t['cc'], t['opt'], ' so%d' % t['lib'] if t['lib'] else '', ' c++17' if '17' in t['std'] else '') for t in tus))
        for i, t in enumerate(tus):
            h = ['safe_integer.hpp'] if rng.random() < .25 else rng.sample(HEADERS, len(HEADERS))
            h.sort(key=lambda x: x in LATE)
            open(os.path.join(d, 'headers%d.hpp' % i), 'w').write(''.join('#include <boost/safe_numerics/%s>\n' % x for x in h + ['safe_integer.hpp']))
            open(os.path.join(d, 'tu%d.cpp' % i), 'w').write('#define TU %d\n#define HEADERS "headers%d.hpp"\n#include "cat_tu.cpp"\n' % (i, i))
            t['cmd'] = [t['cc'], t['std']] + BASE[1:] + [t['opt'], '-fPIC', '-I', d] + t['san'] + (['-DNDEBUG'] if t['ndebug'] else []) + GUARD + ['-c', 'tu%d.cpp' % i, '-o', 'tu%d.o' % i]
            jobs.append((d, t['cmd'], cfg))
        main_src = '#include "cat_main.hpp"\nVF_MON_GLOBALS\n' + ''.join('extern "C" const Api * api_%d();\n' % i for i in range(len(tus))) + \
            'int main(int c, char ** v){ mon::args(c, v); return mon::cat_main("%s", {%s}); }\n' % (cfg, ','.join('api_%d()' % i for i in range(len(tus))))
        open(os.path.join(d, 'main.cpp'), 'w').write(main_src)
        jobs.append((d, [link, '-std=c++14'] + BASE[1:] + ['-O1', '-fPIC', '-I', d] + GUARD + ['-c', 'main.cpp', '-o', 'main.o'], cfg))
        u = Unit('c%d' % k, main_src, [], '', compiler=link, runs=[(ck.seed, ck.tier[0])])
        u.extra = [('headers%d.hpp' % i, open(os.path.join(d, 'headers%d.hpp' % i)).read()) for i in range(len(tus))] + [('tu%d.cpp' % i, open(os.path.join(d, 'tu%d.cpp' % i)).read()) for i in range(len(tus))]
        us.append((u, d, tus, link, cfg))

    def sh(d, cmd):
        try: p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired: return 124, 'timeout'
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: sh(j[0], j[1]), jobs))
    broken = {}
    for (d, cmd, cfg), (rc, log) in zip(jobs, res):
        if rc: broken.setdefault(d, (cmd, log))
    units = []
    for u, d, tus, link, cfg in us:
        err = broken.get(d)
        if not err:
            objs = ['main.o']; cmds = []
            for lib in (1, 2):
                o = ['tu%d.o' % i for i, t in enumerate(tus) if t['lib'] == lib]
                if o: cmds.append([link, '-shared', '-o', 'lib%d.so' % lib] + o); objs.append('lib%d.so' % lib)
            objs += ['tu%d.o' % i for i, t in enumerate(tus) if not t['lib']]
            cmds.append([link, '-o', 'prog'] + objs + ['-Wl,-rpath,' + d])
            for c in cmds:
                rc, log = sh(d, c)
                if rc: err = (c, log); break
        if err:
            msg = next((l for l in err[1].splitlines() if 'error' in l or 'multiple definition' in l or 'undefined' in l), err[1][:300])
            ck.fails.append(dict(site=cfg, kind='program-cannot-be-built', input=' '.join(err[0][-6:]), detail=msg.replace(ck.scratch, '')[:400], unit=u)); continue
        u.binary = os.path.join(d, 'prog'); units.append(u); ck.units_built += 1
    ck.run(units)
    ck.extra_cov['configurations'] = [c[4] for c in us]
    return ck.finish()
