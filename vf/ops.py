"""Site generation for the binary/unary operator checks (C01..C06, C17)."""
from .core import Unit, GXX, CLANG, UBSAN, split
from .types import *

F = {'+': 'FAdd', '-': 'FSub', '*': 'FMul', '/': 'FDiv', '%': 'FMod', '<<': 'FShl', '>>': 'FShr', '&': 'FAnd', '|': 'FOr', '^': 'FXor',
     'neg': 'FNeg', '~': 'FNot', '<': 'FLt', '<=': 'FLe', '>': 'FGt', '>=': 'FGe', '==': 'FEq', '!=': 'FNe'}
ARITH = ['+', '-', '*', '/', '%']
BITS = ['&', '|', '^']
SHIFTS = ['<<', '>>']
CMPS = ['<', '<=', '>', '>=', '==', '!=']
POL = {'NATIVE': 'sn::native', 'AUTOMATIC': 'sn::automatic'}
J_EXACT, J_SPURIOUS, J_TYPE, J_RANGE = 1, 2, 4, 8


def site(op, T, U, pol):
    sid = '%s:%s %s %s' % (pol.lower()[:4], T.name, op, U.name) if op not in ('neg', '~') else '%s:%s %s' % (pol.lower()[:4], op, T.name)
    return (sid, 'add_site<%s,%s,%s>("%s",%s);' % (F[op], T.cxx, U.cxx, sid, pol))


def grid(pol, ops, rng, mixed=1.0, same=1.0):
    """full-range base type pairs: safe x safe, safe x builtin, builtin x safe"""
    P = POL[pol]; out = []
    for t in INTS:
        for u in INTS:
            for op in ops:
                if rng.random() < same: out.append(site(op, safe(t, P), safe(u, P), pol))
                if rng.random() < mixed: out.append(site(op, safe(t, P), builtin(u), pol))
                if rng.random() < mixed: out.append(site(op, builtin(t), safe(u, P), pol))
    return out


def operand(rng, P, allow_builtin=True, allow_lit=True, small=False):
    k = rng.random()
    if k < .60: return rand_range_ty(rng, P, small=small)
    if k < .75: return safe(rng.choice(INTS + EXTRA), P)
    if k < .88 and allow_lit: return rand_lit(rng)
    if allow_builtin: return builtin(rng.choice(INTS + EXTRA if rng.random() < .8 else OTHERS))
    return rand_range_ty(rng, P, small=small)


def haspol(T):
    return T.kind in ('safe', 'range')


def shift_count(rng, P):
    k = rng.random()
    if k < .45:
        a, b = sorted((rng.randrange(-3, 12), rng.randrange(-2, 70))); return srange(a, b, P)
    if k < .6:
        a, b = sorted((rng.randrange(0, 12), rng.randrange(0, 70))); return urange(a, b, P)
    if k < .8: return rng.choice([sliteral(rng.randrange(-1, 66)), uliteral(rng.randrange(0, 66))])
    if k < .9: return safe(rng.choice(INTS), P)
    return builtin(rng.choice(INTS))


def randoms(pol, ops, rng, n, small=False):
    P = POL[pol]; out = []
    while len(out) < n:
        op = rng.choice(ops)
        T = operand(rng, P, small=small)
        U = shift_count(rng, P) if op in SHIFTS and rng.random() < .8 else operand(rng, P, small=small)
        if op in ('neg', '~'):
            if T.kind == 'builtin' or T.kind == 'literal': continue
            U = T
        elif not (haspol(T) or haspol(U)): continue
        out.append(site(op, T, U, pol))
    return out


def near(rng, P, E, op):
    """operand pairs whose hull just fits or just misses a type"""
    bits = rng.choice([8, 16, 31, 31, 32, 32, 63, 63, 64]); top = (1 << bits) - 1; d = rng.choice([-1, 0, 0, 1, 1, 2])
    neg = rng.random() < .4 and bits != 64
    lim = -(1 << bits) - d if neg else top + d
    mk = lambda lo, hi: (urange if lo >= 0 and (hi > (1 << 63) - 1 or rng.random() < .5) else srange)(lo, hi, P, E)
    def ok(*v): return all(-(1 << 63) <= x <= (1 << 64) - 1 for x in v)
    if op == '+':
        a = rng.randrange(0, abs(lim) + 1); a = -a if neg else a; b = lim - a
    elif op == '-':
        b = rng.randrange(0, abs(lim) + 1); a = 0; b = abs(lim) - abs(a)
        a, b = (0, -lim) if rng.random() < .5 else (lim // 2, lim // 2 - lim)
    elif op == '*':
        a = rng.randrange(1, 1 << rng.randrange(1, max(2, bits))); b = lim // a
    elif op in ('/', '%'):
        a = lim; b = rng.choice([-1, 1, 2, -2, lim])
    else:
        a = lim; b = rng.choice([lim, 0, -1, lim + 1])
    def rg(x):
        w = rng.choice([0, 1, 5, abs(x)])
        return (x - w, x) if x > 0 or (x == 0 and rng.random() < .5) else (x, x + w)
    (al, ah), (bl, bh) = rg(a), rg(b)
    if not ok(al, ah, bl, bh) or (al < 0 and ah > (1 << 63) - 1) or (bl < 0 and bh > (1 << 63) - 1): return None
    return mk(al, ah), mk(bl, bh)


def corner(rng, P, E, op):
    """a whole type, or a range ending at its edge, against a tiny range around 0, 1 and -1"""
    t = rng.choice([x for x in INTS if x[1] >= 32] * 2 + INTS); L, H = lim(t[1], t[2])
    if rng.random() < .6: T = safe(t, P, E)
    else:
        w = rng.choice([0, 1, 7, H, H // 2]); lo, hi = rng.choice([(L, L + w), (H - w, H), (L + 1, L + 1 + w), (L, 0 if t[2] else w)])
        if hi < lo or hi > H: return None
        T = (srange if t[2] else urange)(lo, hi, P, E)
    k = rng.choice([2, 3, 5, 100])
    lo, hi = rng.choice([(-1, -1), (-k, -1), (-k, -1), (-k, 0), (-1, 0), (-1, 1), (-k, -2), (0, 0), (0, 1), (1, 1), (1, k), (2, k)])
    z = rng.random()
    U = sliteral(lo) if lo == hi and z < .4 else urange(lo, hi, P, E) if lo >= 0 and z < .7 else srange(lo, hi, P, E)
    return (T, U) if rng.random() < .7 or op in SHIFTS else (U, T)


def shift_corner(rng, P, E):
    """values that are (almost) never negative by counts which just reach below zero, the width, or the room left"""
    w = rng.choice([8, 16, 31, 32, 63, 64]); k = rng.randrange(0, w + 1)
    lo = rng.choice([0, 0, 0, 1, -1, 5]); hi = max(lo, min((1 << 64) - 1 if lo >= 0 else (1 << 63) - 1, (1 << w - k) + rng.choice([-1, -1, 0, 1])))
    z = rng.random()
    T = urange(lo, hi, P, E) if lo >= 0 and (hi > (1 << 63) - 1 or z < .5) else srange(lo, hi, P, E)
    if z > .85: T = safe(rng.choice(INTS), P, E)
    c = rng.choice([k, k, k - 1, k + 1, w - 1, w, w + 1, 31, 63]); c = max(0, c)
    cl = rng.choice([0, 0, -1, -1, -3, 1, c]); cl = min(cl, c)
    U = srange(cl, c, P, E) if cl < 0 or rng.random() < .5 else urange(cl, c, P, E)
    if cl == c and rng.random() < .5: U = sliteral(c)
    return T, U


def corners(pol, ops, rng, n):
    """operators at pairs of declared ranges where the analysis of the ranges has to be exact"""
    P = POL[pol]; E = 'sn::default_exception_policy'; out = []
    while len(out) < n:
        op = rng.choice(ops)
        if op in SHIFTS: z = shift_corner(rng, P, E) if rng.random() < .75 else corner(rng, P, E, op)
        elif op in ('neg', '~'):
            z = corner(rng, P, E, '+'); z = z and (z[0] if haspol(z[0]) else z[1],) * 2
        else: z = corner(rng, P, E, op) if rng.random() < .5 else near(rng, P, E, op)
        if not z: continue
        T, U = z
        if rng.random() < .15:
            t = next((x for x in INTS if lim(x[1], x[2]) == (U.lo, U.hi)), None)
            if t and haspol(T): U = builtin(t)
        if not (haspol(T) or haspol(U)): continue
        out.append(site(op, T, U, pol))
    return out


def dedup(sites):
    seen = {}; 
    for s in sites: seen.setdefault(s[0], s)
    return list(seen.values())


PRO = '#include "ops.hpp"\nVF_MON_GLOBALS\nusing namespace mon;\n'


def units(sites, mask, nrand, exh, rng, ntu=16, name='ops', compilers=(GXX, CLANG), flags=None):
    sites = dedup(sites); rng.shuffle(sites)
    out = []
    for i, part in enumerate(split(sites, ntu)):
        # one function per site keeps single functions small
        lines = [(sid, 'static void s%d(){ %s }' % (j, text)) for j, (sid, text) in enumerate(part)]
        lines = [(sid, 'static struct R%d { R%d(){ %s } } r%d;' % (j, j, text, j)) for j, (sid, text) in enumerate(part)]
        out.append(Unit('%s%d' % (name, i), PRO, lines, 'int main(int c,char**v){ return ops_main(c,v); }', compiler=compilers[i % len(compilers)],
                        flags=flags, runs=[('__SEED__', 'q', mask, nrand, exh)]))
    return out
