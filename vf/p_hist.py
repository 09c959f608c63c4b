"""C09 histories of mutating operations."""
from .core import Check, Unit, GXX, CLANG
from . import ops as O
from .types import *

RULE = ('A history initialises several variables of mixed types and applies 80 random mutating steps (compound assignment, t = t op u, ++/--, assignment, copy), '
        'with the shadow model compared after every step; an evaluation is one step. All steps count as non-trivial: each compares every variable with the model. '
        'Different histories are drawn independently at random.')
EQ = {'+=': 'EqAdd', '-=': 'EqSub', '*=': 'EqMul', '/=': 'EqDiv', '%=': 'EqMod', '<<=': 'EqShl', '>>=': 'EqShr', '&=': 'EqAnd', '|=': 'EqOr', '^=': 'EqXor'}
EX = {'+': 'ExAdd', '-': 'ExSub', '*': 'ExMul', '/': 'ExDiv', '%': 'ExMod'}


def var(rng, P):
    """ranges contain 0 and 1 so that no step is rejected at compile time"""
    k = rng.random()
    if k < .3: return safe(rng.choice(INTS), P)
    b = rng.choice([4, 7, 8, 9, 12, 16, 20, 31, 32, 40, 62, 63])
    hi = max(1, rng.choice([(1 << b) - 1, 1 << b, rng.getrandbits(b) | 1]))
    if k < .55: return urange(0, hi, P)
    hi = min(hi, (1 << 63) - 1)
    return srange(-rng.choice([0, 1, rng.getrandbits(b), hi]), hi, P)


def gen(ck, i):
    rng = ck.rng; pol = rng.choice(['NATIVE', 'AUTOMATIC']); P = O.POL[pol]
    safe_vars = [var(rng, P) for _ in range(4)]
    vs = safe_vars + [builtin(rng.choice(INTS)), builtin(rng.choice(OTHERS))]     # the last one is only used on the right: an enumerator, a bool, ...
    pro = '#include "hist.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\ntypedef std::tuple<%s > Env;\n' % ', '.join(v.cxx for v in vs)
    pro += 'static Env the_env{%s};\n' % ', '.join('maker<%s >::make(1)' % v.cxx for v in vs)
    pro += 'static struct Init { Init(){ env<Env>() = &the_env; %s } } init_;\n' % ' '.join('add_var<Env,%d>("%s");' % (j, v.name) for j, v in enumerate(vs))
    L = []
    def add(sid, call):
        n = len(L); sid = '%s:%s' % (pol[:4].lower(), sid)
        L.append((sid, 'static struct R%d { R%d(){ %s("%s",%s); } } r%d;' % (n, n, call, sid, pol, n)))
    nm = [v.name for v in vs]
    for a in range(len(vs)):
        for b in range(len(vs)):
            if a >= 4 and b >= 4 or a == 5: continue
            for op, q in EQ.items():
                if a == 4 and rng.random() < .5: continue
                if not ck.thorough and rng.random() < .35: continue
                add('%s#%d %s %s#%d' % (nm[a], a, op, nm[b], b), 'add_step<Env,%s,%d,%d>' % (q, a, b))
            if a == 4: continue
            for op, q in EX.items():
                if rng.random() < .25: add('%s#%d = self %s %s#%d' % (nm[a], a, op, nm[b], b), 'add_step<Env,%s,%d,%d>' % (q, a, b))
            if a != b: add('%s#%d = %s#%d' % (nm[a], a, nm[b], b), 'add_assign<Env,%d,%d>' % (a, b))
        if a < 4:
            for k, s in (('ST_PREINC', '++pre'), ('ST_PREDEC', '--pre'), ('ST_POSTINC', 'post++'), ('ST_POSTDEC', 'post--')):
                add('%s %s#%d' % (s, nm[a], a), 'add_unary<Env,%d,%s>' % (a, k))
            add('copy %s#%d' % (nm[a], a), 'add_copy<Env,%d>' % a)
    return Unit('hist%d' % i, pro, L, 'int main(int c,char**v){ return hist_main(c,v); }', compiler=(GXX, CLANG)[i % 2],
                runs=[(ck.seed, ck.tier[0], 60000 if ck.thorough else 3000, 80)])


def main(prop):
    ck = Check(prop, RULE, ['the model is exact 128-bit integer arithmetic over a vector of variables'])
    ck.go([gen(ck, i) for i in range(64 if ck.thorough else 14)])
    return ck.finish()
