"""C22 whole programs over safe integers against an interpreter."""
import random
from .core import Check, Unit, GXX, CLANG, HarnessError
from .types import INTS, lim
from . import near

RULE = ('A generated program (declarations, loops, conditions, functions, vectors, standard algorithms, compound assignments over variables of mixed safe, ranged and built-in types) is run on a set of inputs and logs '
        'every value it stores and every statement that reports; an evaluation is one logged event, compared with an independent interpreter. All events are non-trivial: each is a value after at least one safe operation or a reported error. '
        'The same program text with built-in types in place of the safe ones is run too and its log must agree up to the first error: this keeps the interpreter honest.')
NAMES = {(8, 1): 'std::int8_t', (8, 0): 'std::uint8_t', (16, 1): 'std::int16_t', (16, 0): 'std::uint16_t',
         (32, 1): 'std::int32_t', (32, 0): 'std::uint32_t', (64, 1): 'std::int64_t', (64, 0): 'std::uint64_t'}
B = list(NAMES)


class Err(Exception): pass
class Stop(Exception): pass      # from here on more than one outcome is legitimate
class Reject(Exception): pass    # while generating: not a program we want


def wrap(x, b, s):
    x &= (1 << b) - 1
    return x - (1 << b) if s and x >> (b - 1) else x


def prom(t): return t if t[0] >= 32 else (32, 1)


def common(t, u):
    t, u = prom(t), prom(u)
    if t[1] == u[1]: return max(t, u)
    a, b = (t, u) if not t[1] else (u, t)      # a unsigned
    return a if a[0] >= b[0] else b


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Val:
    """value, base type, is it a safe object, is its base type known (automatic promotion makes types from ranges)"""
    __slots__ = ('v', 't', 'safe', 'leaf')
    def __init__(self, v, t, safe, leaf=True): self.v = v; self.t = t; self.safe = safe; self.leaf = leaf


class Var:
    def __init__(self, name, t, lo, hi, kind, cxx): self.name = name; self.t = t; self.lo = lo; self.hi = hi; self.kind = kind; self.cxx = cxx
    def fits(self, v): return self.lo <= v <= self.hi


def store(var, v):
    if not var.fits(v): raise Err
    return v


def arith(op, x, y, auto):
    if not (x.safe or y.safe): raise Reject
    if auto:
        if op in ('&', '|', '^', '<<', '>>') and not (x.leaf and (op in ('<<', '>>') or y.leaf)): raise Reject
        s = 1 if op == '-' else x.t[1] if op in ('<<', '>>') else common(x.t, y.t)[1] if op in ('&', '|', '^') else (x.t[1] | y.t[1])
        T = (64, s); pat = common(x.t, y.t)
    else:
        T = prom(x.t) if op in ('<<', '>>') else common(x.t, y.t); pat = T
    lo, hi = lim(*T)
    a, b = x.v, y.v; maybe = False
    if op in ('&', '|', '^'):
        p, q = wrap(a, *pat), wrap(b, *pat)
        r = wrap(p & q if op == '&' else p | q if op == '|' else p ^ q, *pat)
        return Val(r, pat if not auto else (64, s), True, not auto)
    if not lo <= a <= hi: maybe = True
    if op in ('<<', '>>'):
        if b < 0: raise Err
        if op == '<<':
            r = a << min(b, 200)
            if a < 0 or (a == 0 and b >= (7 if auto else T[0] - T[1])): maybe = True
        else:
            r = a >> min(b, 200)
            if a < 0 or b >= (8 if auto else T[0]): maybe = True
    else:
        if not lo <= b <= hi: maybe = True
        if op in ('/', '%') and b == 0: raise Err
        r = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else tdiv(a, b) if op == '/' else a - b * tdiv(a, b)
    if not lo <= r <= hi: raise Err
    if maybe: raise Stop
    return Val(r, T, True, not auto)


def compare(op, x, y, auto):
    if not (x.safe or y.safe): raise Reject
    T = (64, x.t[1] | y.t[1]) if auto else common(x.t, y.t)
    lo, hi = lim(*T)
    if not (lo <= x.v <= hi and lo <= y.v <= hi): raise Stop
    return {'<': x.v < y.v, '<=': x.v <= y.v, '>': x.v > y.v, '>=': x.v >= y.v, '==': x.v == y.v, '!=': x.v != y.v}[op]


class Gen:
    def __init__(self, rng, pid, auto, ninputs):
        self.rng = rng; self.pid = pid; self.auto = auto; self.k = 0; self.ops = {}
        self.vars = []; self.vecs = []; self.funs = []; self.text = []
        self.locals = []
        for i in range(rng.randrange(4, 8)): self.vars.append(self.newvar('x%d' % i))
        for i in range(rng.randrange(1, 3)):
            v = self.newvar('w%d' % i, plain=False); self.vecs.append(v)
        if all(v.kind == 'plain' for v in self.vars): self.vars[0] = self.newvar('x0', plain=False)
        self.enums = [self.newenum(i) for i in range(rng.choice([0, 0, 2, 3]))]
        self.tree = None
        for i in range(rng.randrange(1, 4)): self.function(i)
        n = len(self.vars) + 8 * len(self.vecs)
        self.inputs = []
        for j in range(ninputs):
            self.inputs.append([self.draw(v) for v in self.vars] + [self.draw(v) for v in self.vecs for _ in range(8)])
        self.states = [self.initial(x) for x in self.inputs]
        self.live = [True] * ninputs; self.traces = [[] for _ in self.inputs]
        self.code = []
        tries = 0; want = rng.randrange(12, 26)
        while len(self.code) < want and tries < 400:
            tries += 1; self.statement()

    def newvar(self, name, plain=True):
        rng = self.rng; t = rng.choice(B + [(32, 1), (32, 1), (32, 0), (64, 1)]); L, H = lim(*t); z = rng.random()
        if plain and z < .2: return Var(name, t, L, H, 'plain', NAMES[t])
        if z < .65: return Var(name, t, L, H, 'safe', 'V(%s)' % NAMES[t])
        for _ in range(50):     # a declared range that is stored in t and contains 0 and 1
            hb = rng.randrange(1, t[0] - t[1] + 1); hi = rng.choice([(1 << hb) - 1, rng.randrange(1, 1 << hb)])
            lo = -rng.choice([0, 1, hi, rng.randrange(0, 1 << rng.randrange(1, t[0]))]) if t[1] else 0
            if stored(lo, hi, t[1]) == t[0] and L <= lo and hi <= H and hi < 1 << 63: return Var(name, t, lo, hi, 'range', 'R%d(%s,%s,%s)' % (t[1], NAMES[t], clit(lo), clit(hi)))
        return Var(name, t, L, H, 'safe', 'V(%s)' % NAMES[t])

    def newenum(self, i):
        rng = self.rng; t = rng.choice(B); lo, hi = lim(*t)
        v = rng.choice([1, 2, 3, 7, 10, 100, 300, hi, lo, rng.randrange(0, hi + 1), rng.getrandbits(rng.randrange(1, t[0]))]); v = max(lo, min(hi, v))
        return ('enum', 'K%d' % i, t, v)

    def draw(self, v):
        rng = self.rng; z = rng.random()
        if z < .55: x = rng.randrange(-3, 40)
        elif z < .7: x = rng.choice([v.lo, v.hi, v.hi - 1, v.lo + 1])
        else: x = rng.getrandbits(rng.randrange(1, v.t[0] + 1)) * rng.choice([1, 1, -1])
        return min(max(x, v.lo), v.hi)

    def initial(self, x):
        n = len(self.vars)
        st = {v.name: x[i] for i, v in enumerate(self.vars)}
        for j, w in enumerate(self.vecs): st[w.name] = list(x[n + 8 * j: n + 8 * j + 8])
        return st

    # ---- functions of the program
    def function(self, i):
        rng = self.rng; ps = [self.newvar('p%d' % j) for j in range(rng.randrange(1, 3))]
        if all(p.kind == 'plain' for p in ps): ps[0] = self.newvar('p0', plain=False)
        ret = self.newvar('r')
        for _ in range(60):
            e = self.expr(2, ps, calls=False)
            if e[0] in ('bin', 'tern', 'neg') and self.typeok(e): break
        else: return
        generic = rng.random() < .3
        self.funs.append(dict(name='f%d' % i, ps=ps, ret=ret, body=e, generic=generic))

    def typeok(self, e):
        """no operator on two built-in operands, no expression outside the fragment; must hold for every input"""
        try: self.stype(e); return True
        except Reject: return False

    def stype(self, e):
        """static part of evaluation: (type, safe, leaf)"""
        k = e[0]
        if k == 'lit': return (32, 1), False, True
        if k == 'var': return e[1].t, e[1].kind != 'plain', True
        if k == 'enum': return prom(e[2]), False, True
        if k == 'bool': self.scond(e[1]); return (8, 0), False, True
        if k == 'local': return e[1]['t'], True, e[1]['leaf']
        if k == 'idx':
            t, s, l = self.stype(e[2])
            if not s or (self.auto and not l): raise Reject
            return e[1].t, True, True
        if k == 'bin':
            a, b = self.stype(e[2]), self.stype(e[3])
            # ranges of automatic intermediates grow; keep shift counts and divisors simple
            r = arith_type(e[1], a, b, self.auto); return r
        if k in ('neg', 'inv', 'pos'):
            a = self.stype(e[1])
            if not a[1]: raise Reject
            if k == 'pos': return a
            if k == 'inv':
                if self.auto and not a[2]: raise Reject
                return ((64, prom(a[0])[1]) if self.auto else prom(a[0])), True, not self.auto
            return ((64, 1) if self.auto else prom(a[0])), True, not self.auto
        if k == 'cast':
            a = self.stype(e[2]); return e[1], True, True
        if k == 'bcast':
            a = self.stype(e[2])
            if not a[1]: raise Reject
            return e[1], False, True
        if k == 'call':
            for p, a in zip(e[1]['ps'], e[2]):      # built-in to built-in: the library has no say
                if not self.stype(a)[1] and p.kind == 'plain': raise Reject
            return e[1]['ret'].t, e[1]['ret'].kind != 'plain', True
        if k == 'tern':
            self.scond(e[1]); self.stype(e[2]); self.stype(e[3]); return e[4], True, True
        if k == 'minmax': return e[2].t, True, True
        raise AssertionError(k)

    def scond(self, c):
        if c[0] == 'cmp':
            a, b = self.stype(c[2]), self.stype(c[3])
            if not (a[1] or b[1]): raise Reject
        elif c[0] in ('and', 'or'): self.scond(c[1]); self.scond(c[2])
        elif c[0] == 'not': self.scond(c[1])

    # ---- random expressions
    def leaf(self, vs):
        rng = self.rng; z = rng.random()
        if z < .2 : return ('lit', rng.choice([0, 1, 1, 2, 3, 5, 7, 10, 16, 31, 100, 127, 128, 255, 1000, 32767, 65535, 65536, 2147483647, -1, -2, -7]))
        if self.enums and z > .9: return rng.choice(self.enums)
        if self.locals and z < .35: return ('local', rng.choice(self.locals))
        if self.vecs and vs is self.vars and z < .45:
            sv = [v for v in vs if v.kind != 'plain']
            if sv: return ('idx', rng.choice(self.vecs), ('bin', '&', ('var', rng.choice(sv)), ('lit', 7)))
        return ('var', rng.choice(vs))

    def expr(self, d, vs, calls=True):
        rng = self.rng
        if d <= 0 or rng.random() < .12: return self.leaf(vs)
        z = rng.random()
        if z < .68:
            op = rng.choice(['+', '+', '-', '-', '*', '*', '/', '%', '&', '|', '^', '<<', '>>'])
            a = self.expr(d - 1, vs, calls); b = self.expr(d - 1, vs, calls)
            if op in ('<<', '>>') and rng.random() < .8: b = rng.choice([('lit', rng.randrange(0, 9)), ('lit', rng.randrange(0, 40)), ('bin', '&', ('var', rng.choice(vs)), ('lit', 7))])
            return ('bin', op, a, b)
        if z < .74: return (rng.choice(['neg', 'neg', 'inv', 'pos']), self.expr(d - 1, vs, calls))
        if z < .82: return ('cast', rng.choice(B), self.expr(d - 1, vs, calls))
        if z < .86: return ('bcast', rng.choice(B), self.expr(d - 1, vs, calls))
        if z < .875: return ('bool', self.cond(0, vs))
        if z < .93 and calls and self.funs:
            f = rng.choice(self.funs); return ('call', f, [self.expr(d - 1, vs, calls) for _ in f['ps']])
        if z < .96:
            sv = [v for v in vs if v.kind != 'plain']
            same = [(a, b) for a in sv for b in sv if a.cxx == b.cxx]
            if same: a, b = rng.choice(same); return ('minmax', rng.choice(['min', 'max']), a, b)
            return self.leaf(vs)
        t = rng.choice(B)
        return ('tern', self.cond(1, vs), ('cast', t, self.expr(d - 1, vs, calls)), ('cast', t, self.expr(d - 1, vs, calls)), t)

    def cond(self, d, vs):
        rng = self.rng; z = rng.random()
        if d > 0 and z < .3: return (rng.choice(['and', 'or']), self.cond(d - 1, vs), self.cond(d - 1, vs))
        if d > 0 and z < .4: return ('not', self.cond(d - 1, vs))
        return ('cmp', rng.choice(['<', '<=', '>', '>=', '==', '!=']), self.expr(1, vs, False), self.expr(1, vs, False))

    # ---- printing
    def s(self, e):
        k = e[0]
        if k == 'lit': return str(e[1]) if e[1] >= 0 else '(%d)' % e[1]
        if k == 'var': return e[1].name
        if k == 'enum': return e[1]
        if k == 'bool': return '(%s)' % self.sc(e[1])
        if k == 'local': return e[1]['name']
        if k == 'idx': return '%s[%s]' % (e[1].name, self.s(e[2]))
        if k == 'bin': return '(%s %s %s)' % (self.s(e[2]), e[1], self.s(e[3]))
        if k in ('neg', 'inv', 'pos'): return '(%s%s)' % ({'neg': '-', 'inv': '~', 'pos': '+'}[k], self.s(e[1]))
        if k == 'cast': return 'static_cast<V(%s)>(%s)' % (NAMES[e[1]], self.s(e[2]))
        if k == 'bcast': return 'static_cast<%s>(%s)' % (NAMES[e[1]], self.s(e[2]))
        if k == 'call': return '%s(%s)' % (e[1]['name'], ', '.join(self.s(a) for a in e[2]))
        if k == 'tern': return '(%s ? %s : %s)' % (self.sc(e[1]), self.s(e[2]), self.s(e[3]))
        if k == 'minmax': return 'std::%s(%s, %s)' % (e[1], e[2].name, e[3].name)
        raise AssertionError(k)

    def sc(self, c):
        if c[0] == 'cmp': return '(%s %s %s)' % (self.s(c[2]), c[1], self.s(c[3]))
        if c[0] == 'not': return '!%s' % self.sc(c[1])
        return '(%s %s %s)' % (self.sc(c[1]), '&&' if c[0] == 'and' else '||', self.sc(c[2]))

    # ---- interpreter
    def ev(self, e, st):
        k = e[0]
        if k == 'lit': return Val(e[1], (32, 1), False)
        if k == 'var': return Val(st[e[1].name], e[1].t, e[1].kind != 'plain')
        if k == 'enum': return Val(e[3], prom(e[2]), False)
        if k == 'bool': return Val(int(self.co(e[1], st)), (8, 0), False)
        if k == 'local': return Val(st[e[1]['name']], e[1]['t'], True, e[1]['leaf'])
        if k == 'idx': return Val(st[e[1].name][self.ev(e[2], st).v], e[1].t, True)
        if k == 'bin':
            # the order of evaluation of operands is unspecified; only errors can tell, and any of them ends the statement
            a = b = None; er = stop = False
            for i in (2, 3):
                try: x = self.ev(e[i], st)
                except Err: er = True; continue
                except Stop: stop = True; continue
                if i == 2: a = x
                else: b = x
            if er: raise Err
            if stop: raise Stop
            return arith(e[1], a, b, self.auto)
        if k in ('neg', 'inv', 'pos'):
            a = self.ev(e[1], st)
            if k == 'pos': return a
            T = (64, 1) if self.auto else prom(a.t)
            if k == 'inv':
                p = prom(a.t); return Val(wrap(~a.v, *p), (64, p[1]) if self.auto else p, True, not self.auto)
            lo, hi = lim(*T)
            if not lo <= -a.v <= hi: raise Err
            if not lo <= a.v <= hi: raise Stop
            return Val(-a.v, T, True, not self.auto)
        if k in ('cast', 'bcast'):
            a = self.ev(e[2], st); lo, hi = lim(*e[1])
            if not lo <= a.v <= hi: raise Err
            return Val(a.v, e[1], k == 'cast')
        if k == 'call':
            f = e[1]; fr = {}; er = stop = False
            for p, a in zip(f['ps'], e[2]):
                try: fr[p.name] = store(p, self.ev(a, st).v)
                except Err: er = True
                except Stop: stop = True
            if er: raise Err
            if stop: raise Stop
            r = self.ev(f['body'], fr)
            return Val(store(f['ret'], r.v), f['ret'].t, f['ret'].kind != 'plain')
        if k == 'tern': return self.ev(e[2] if self.co(e[1], st) else e[3], st)
        if k == 'minmax':
            a, b = st[e[2].name], st[e[3].name]
            return Val(min(a, b) if e[1] == 'min' else max(a, b), e[2].t, True)
        raise AssertionError(k)

    def co(self, c, st):
        if c[0] == 'cmp':
            er = stop = False; x = []
            for i in (2, 3):
                try: x.append(self.ev(c[i], st))
                except Err: er = True
                except Stop: stop = True
            if er: raise Err
            if stop: raise Stop
            return compare(c[1], x[0], x[1], self.auto)
        if c[0] == 'not': return not self.co(c[1], st)
        a = self.co(c[1], st)
        if c[0] == 'and': return a and self.co(c[2], st)
        return a or self.co(c[2], st)

    # ---- statements: (text, run(st, trace))
    def lvalue(self):
        rng = self.rng
        if self.vecs and rng.random() < .15:
            sv = [v for v in self.vars if v.kind != 'plain']; w = rng.choice(self.vecs); ix = ('bin', '&', ('var', rng.choice(sv)), ('lit', 7))
            def get(st): return self.ev(ix, st).v
            return dict(text='%s[%s]' % (w.name, self.s(ix)), var=w, safe=True, show=w.name, get=lambda st: st[w.name][get(st)], set=lambda st, v: st[w.name].__setitem__(get(st), v), rd=('idx', w, ix))
        v = rng.choice(self.vars)
        return dict(text=v.name, var=v, safe=v.kind != 'plain', show=v.name, get=lambda st: st[v.name], set=lambda st, x: st.__setitem__(v.name, x), rd=('var', v))

    def guarded(self, text, run, shown):
        """one statement in a try block, with what it changed logged"""
        k = self.k; self.k += 1
        def go(st, tr):
            try: run(st, tr)
            except Err: tr.append((k, 'E')); return
            for n in shown:
                x = st[n]
                for y in (x if isinstance(x, list) else [x]): tr.append((k, y))
        return 'TRY(%d, %s %s)' % (k, text, ' '.join('mon::TR(%d, %s);' % (k, n) for n in shown)), go

    def simple(self):
        rng = self.rng; z = rng.random()
        if z < .4:
            l = self.lvalue(); e = self.expr(rng.choice([1, 2, 2, 3]), self.vars)
            t = self.stype(e)
            if not t[1] and not l['safe']: raise Reject
            return self.guarded('%s = %s;' % (l['text'], self.s(e)), lambda st, tr: l['set'](st, store(l['var'], self.ev(e, st).v)), [l['show']])
        if z < .65:
            l = self.lvalue(); op = rng.choice(['+', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
            e = self.expr(rng.choice([0, 1, 2]), self.vars)
            if op in ('<<', '>>') and rng.random() < .8: e = ('lit', rng.randrange(0, 10))
            b = ('bin', op, l['rd'], e); self.stype(b)
            return self.guarded('%s %s= %s;' % (l['text'], op, self.s(e)), lambda st, tr: l['set'](st, store(l['var'], self.ev(b, st).v)), [l['show']])
        if z < .75:
            l = self.lvalue()
            if not l['safe']: raise Reject
            d, tx = rng.choice([(1, '++%s'), (1, '%s++'), (-1, '--%s'), (-1, '%s--')])
            if self.auto and l['var'].t == (64, 0) : raise Reject
            if rng.random() < .5: return self.guarded(tx % l['text'] + ';', lambda st, tr: l['set'](st, self.incr(l, st, d)), [l['show']])
            m = rng.choice(self.vars)
            if m.name == l['show'] or (m.name in l['text']): raise Reject
            def run(st, tr):
                old = l['get'](st); new = self.incr(l, st, d); l['set'](st, new)
                st[m.name] = store(m, new if tx.startswith(('+', '-')) else old)
            return self.guarded('%s = %s;' % (m.name, tx % l['text']), run, [m.name, l['show']])
        if z < .8:
            sv = [v for v in self.vars]; same = [(a, b) for a in sv for b in sv if a is not b and a.cxx == b.cxx]
            if not same: raise Reject
            a, b = rng.choice(same)
            def run(st, tr): st[a.name], st[b.name] = st[b.name], st[a.name]
            return self.guarded('std::swap(%s, %s);' % (a.name, b.name), run, [a.name, b.name])
        w = rng.choice(self.vecs); n = w.name; q = rng.random()
        if q < .2: return self.guarded('std::sort(%s.begin(), %s.end());' % (n, n), lambda st, tr: st[n].sort(), [n])
        if q < .3: return self.guarded('std::reverse(%s.begin(), %s.end());' % (n, n), lambda st, tr: st[n].reverse(), [n])
        if q < .55:
            t = rng.choice(B); x = rng.choice(self.vars); lo, hi = lim(*t); inner = rng.random() < .4
            def run(st, tr):
                acc = Val(0, t, True)
                for y in st[n]:
                    z = Val(y, w.t, True)
                    if inner: z = arith('*', z, z, self.auto)
                    r = arith('+', acc, z, self.auto)
                    if not lo <= r.v <= hi: raise Err
                    acc = Val(r.v, t, True)
                st[x.name] = store(x, acc.v)
            if inner: return self.guarded('%s = std::inner_product(%s.begin(), %s.end(), %s.begin(), V(%s)(0));' % (x.name, n, n, n, NAMES[t]), run, [x.name])
            return self.guarded('%s = std::accumulate(%s.begin(), %s.end(), V(%s)(0));' % (x.name, n, n, NAMES[t]), run, [x.name])
        if q < .7:
            def run(st, tr):
                a = st[n]; acc = a[0]
                for i in range(1, 8):
                    acc = store(w, arith('+', Val(acc, w.t, True), Val(a[i], w.t, True), self.auto).v); a[i] = acc
            return self.guarded('std::partial_sum(%s.begin(), %s.end(), %s.begin());' % (n, n, n), run, [n])
        if q < .85:
            x = rng.choice(self.vars); f = rng.choice(['min', 'max'])
            return self.guarded('%s = *std::%s_element(%s.begin(), %s.end());' % (x.name, f, n, n), lambda st, tr: st.__setitem__(x.name, store(x, (min if f == 'min' else max)(st[n]))), [x.name])
        e = self.expr(1, [v for v in self.vars if v.kind != 'plain'] or self.vars); self.stype(e)
        def run(st, tr):
            v = store(w, self.ev(e, st).v); st[n] = [v] * 8
        return self.guarded('{ const %s t_ = %s; std::fill(%s.begin(), %s.end(), t_); }' % (w.cxx, self.s(e), n, n), run, [n])

    def incr(self, l, st, d):
        v = l['get'](st); r = arith('+' if d > 0 else '-', Val(v, l['var'].t, True), Val(1, (32, 1), False), self.auto)
        return store(l['var'], r.v)

    def block(self, n):
        out = [self.simple() for _ in range(n)]
        return ' '.join(t for t, _ in out), [g for _, g in out]

    def compound(self):
        rng = self.rng; z = rng.random()
        if z < .35:
            c = self.cond(2, self.vars); self.scond(c)
            t1, b1 = self.block(rng.randrange(1, 3)); t2, b2 = self.block(rng.randrange(0, 3))
            def run(st, tr):
                for g in (b1 if self.co(c, st) else b2): g(st, tr)
            return self.guarded('if(%s){ %s } else { %s }' % (self.sc(c), t1, t2), run, [])
        name = 'i%d' % self.k; self.k += 1; t = rng.choice([(8, 1), (8, 0), (16, 1), (32, 1), (32, 0), (64, 1)])
        i = Var(name, t, *lim(*t), 'safe', 'V(%s)' % NAMES[t]); n = rng.randrange(2, 6)
        self.vars.append(i)
        try: tx, b = self.block(rng.randrange(1, 3))
        finally: self.vars.remove(i)
        down = rng.random() < .3 and t[1]
        if z < .8:
            a0 = rng.randrange(0, 4); step = rng.choice([1, 1, 2])
            hdr = 'for(%s %s = %d; %s %s %d; %s)' % (i.cxx, name, a0 + n if down else a0, name, '>=' if down else '<', a0 if down else a0 + n,
                                                     ('%s%s' % ('--' if down else '++', name)) if step == 1 else '%s %s= 2' % (name, '-' if down else '+'))
            d = -step if down else step; cm = '>=' if down else '<'; end = a0 if down else a0 + n; fuel = 'fuel%s' % name
            def run(st, tr):
                st[name] = a0 + n if down else a0; f = 8
                while compare(cm, Val(st[name], t, True), Val(end, (32, 1), False), self.auto):
                    f -= 1
                    if f < 0: break
                    for g in b: g(st, tr)
                    st[name] = store(i, arith('+' if d > 0 else '-', Val(st[name], t, True), Val(step, (32, 1), False), self.auto).v)
            return self.guarded('int %s = 8; %s { if(--%s < 0) break; %s }' % (fuel, hdr, fuel, tx), run, [])
        c = self.cond(1, self.vars); self.scond(c); fuel = 'fuel%s' % name
        do = rng.random() < .4
        def run(st, tr):
            st[name] = 0; f = n
            while do or self.co(c, st):
                for g in b: g(st, tr)
                f -= 1
                if f < 0: break
                if do and not self.co(c, st): break
        head = '%s %s = 0; int %s = %d; ' % (i.cxx, name, fuel, n)
        if do: return self.guarded(head + 'do { %s if(--%s < 0) break; } while(%s);' % (tx, fuel, self.sc(c)), run, [])
        return self.guarded(head + 'while(%s) { %s if(--%s < 0) break; }' % (self.sc(c), tx, fuel), run, [])

    def local(self):
        e = self.expr(2, self.vars); t = self.stype(e)
        if e[0] not in ('bin', 'neg') or not t[1]: raise Reject
        name = 'a%d' % self.k; self.k += 1; L = dict(name=name, t=t[0], leaf=t[2])
        return L, e

    def statement(self):
        k0 = self.k
        try:
            lo = None
            if self.rng.random() < .12:
                # auto t = e; must not fail: the rest of the program uses t
                L, e = self.local()
                text = 'auto %s = %s; mon::TR(%d, %s);' % (L['name'], self.s(e), self.k, L['name']); kk = self.k; self.k += 1
                def go(st, tr):
                    v = self.ev(e, st).v; st[L['name']] = v; tr.append((kk, v))
                lo = L
            else: text, go = self.compound() if self.rng.random() < .3 else self.simple()
            stops = errs = n = 0; new = []
            for i, st in enumerate(self.states):
                if not self.live[i]: new.append(None); continue
                s2 = {a: (list(b) if isinstance(b, list) else b) for a, b in st.items()}; tr = []; n += 1; stop = False
                try: go(s2, tr)
                except Stop: stop = True
                except Err: raise Reject
                if stop: stops += 1
                errs += any(x[1] == 'E' for x in tr)
                if len(tr) > 150: raise Reject
                new.append((s2, tr, stop))
            if n == 0: raise Reject
            if lo and stops: raise Reject
            if stops * 6 > n or (errs * 2 > n and self.rng.random() < .8): raise Reject
        except Reject:
            self.k = k0; return
        for i, r in enumerate(new):
            if r is None: continue
            self.states[i] = r[0]; self.traces[i] += r[1]
            if r[2]: self.live[i] = False
        if lo: self.locals.append(lo)
        self.code.append(text)

    def source(self):
        o = ['namespace %s {' % self.pid]
        for e in self.enums: o.append('enum E%s : %s { %s = static_cast<%s>(%s) };' % (e[1], NAMES[e[2]], e[1], NAMES[e[2]], clit(e[3]) if e[3] < 1 << 63 else '%dULL' % e[3]))
        for f in self.funs:
            # a function template in some programs, so that what a call passes on keeps its type
            o.append('static %s %s(%s){ return %s; }' % (f['ret'].cxx, f['name'], ', '.join('%s%s %s' % (('const ', p.cxx, '&' + p.name) if f['generic'] else ('', p.cxx, p.name)) for p in f['ps']), self.s(f['body'])))
        o.append('static void run(const i128 * in){')
        j = 0
        for v in self.vars: o.append('%s %s = IN(%s, %d); (void)%s;' % (v.cxx, v.name, v.cxx, j, v.name)); j += 1
        for w in self.vecs:
            o.append('std::vector<%s > %s; for(int j_ = %d; j_ < %d; ++j_) %s.push_back(mon::maker<%s >::make(in[j_]));' % (w.cxx, w.name, j, j + 8, w.name, w.cxx)); j += 8
        o += self.code
        o.append('}')
        o.append('static mon::RegProg reg("%s", %d, &run, "%s"); }' % (self.pid, j, ' '.join(str(x) for inp in self.inputs for x in inp)))
        return '\n'.join(o)


def arith_type(op, x, y, auto):
    r = arith(op, Val(1, x[0], x[1], x[2]), Val(1, y[0], y[1], y[2]), auto)
    return r.t, r.safe, r.leaf


def clit(v):
    return '%dLL' % v if v > -(1 << 63) else '(-9223372036854775807LL-1)'


def stored(lo, hi, sgn):
    for w in (8, 16, 32, 64):
        L, H = lim(w, sgn)
        if L <= lo and hi <= H: return w
    return None


PRO = '''#include "prog.hpp"
VF_MON_GLOBALS
typedef %s POL;
#ifdef VF_PLAIN
#define R0(T,lo,hi) T
#define R1(T,lo,hi) T
#else
#define R0(T,lo,hi) sn::safe_unsigned_range<lo,hi,POL>
#define R1(T,lo,hi) sn::safe_signed_range<lo,hi,POL>
#endif
'''
END = 'int main(int c,char**v){ return mon::prog_main(c,v); }'


def compare_logs(ck, units, res, G, plain):
    it = iter(res); stat = dict(events=0, runs=0, complete=0, stopped=0, errors=0)
    for u in units:
        if not u.binary: continue
        rc, so, se = next(it)
        for line in so.splitlines():
            if not line.startswith('L '): continue
            pid, k, log = line[2:].split('|', 2); g = G[pid]; want = g.traces[int(k)]; ev = log.split()
            stat['runs'] += 1; stat['complete' if g.live[int(k)] else 'stopped'] += 1
            inp = 'input #%s: %s' % (k, ' '.join('%s=%s' % (v.name, x) for v, x in zip(g.vars, g.inputs[int(k)])))
            for j, (n, v) in enumerate(want):
                if plain and v == 'E': break
                got = ev[j] if j < len(ev) else '(end)'
                exp = '%d:%s' % (n, v)
                ok = got == exp or (v == 'E' and got.startswith(exp))
                if not ok:
                    if plain: raise HarnessError('the interpreter disagrees with the built-in program %s, %s: event %d is %s, expected %s' % (pid, inp, j, got, exp))
                    kind = 'undefined-behaviour' if got.startswith('!trap') else 'spurious-error' if ':E' in got and v != 'E' else 'missing-error' if v == 'E' and got.split(':')[0] == str(n) else 'wrong-value' if got.split(':')[0] == str(n) else 'wrong-path'
                    stm = next((c for c in g.code if 'TRY(%d,' % n in c or 'TR(%d,' % n in c), '')
                    ck.fails.append(dict(site=pid, kind=kind, input=inp, detail='event %d is %s, expected %s, at: %s' % (j, got, exp, stm[:300]), unit=u, args=u.runs[0])); break
                stat['events'] += 1; stat['errors'] += v == 'E'
            else:
                if g.live[int(k)] and not plain and len(ev) > len(want):
                    ck.fails.append(dict(site=pid, kind='wrong-path', input=inp, detail='the program went on after the expected end: %s' % ev[len(want)], unit=u, args=u.runs[0]))
    return stat


def main(prop):
    ck = Check(prop, RULE, ['the interpreter\'s arithmetic is exact; where the library may either report or give the exact value (negative shifts, operands that do not fit the common type) the rest of that run is not judged',
                            'programs use the syntax listed in DESIGN.md; other uses of built-in integers (switch, pointer arithmetic, floating point) do not compile with safe types and are not generated'])
    n = 900 if ck.thorough else 112; per = 7; ninp = 60 if ck.thorough else 24
    units = []; plain = []; G = {}
    for auto in (False, True):
        progs = []
        while len(progs) < n // 2:
            g = Gen(ck.rng, 'p%d%s' % (len(G), 'a' if auto else 'n'), auto, ninp)
            if len(g.code) < 6: continue
            G[g.pid] = g; progs.append(g)
        for i in range(0, len(progs), per):
            part = progs[i:i + per]; lines = [(g.pid, g.source()) for g in part]
            nm = 'pa'[auto] + str(i)
            units.append(Unit('s' + nm, PRO % ('sn::automatic' if auto else 'sn::native'), lines, END, compiler=(GXX, CLANG)[(i // per) % 2], runs=[(ck.seed, ck.tier[0])]))
            if not auto: plain.append(Unit('b' + nm, '#define VF_PLAIN\n' + PRO % 'sn::native', lines, END, compiler=(CLANG, GXX)[(i // per) % 2], runs=[(ck.seed, ck.tier[0])]))
    ck.build(units); res = ck.run(units)
    stat = compare_logs(ck, units, res, G, False)
    # the same programs over built-in types
    p2 = Check.__new__(Check); p2.__dict__.update(ck.__dict__)
    p2.fails = []; p2.tot = dict(ck.tot); p2.feat = {}; p2.samples = []; p2.inconclusive = []
    p2.build(plain); pres = p2.run(plain)
    if [f for f in p2.fails if f['kind'] == 'rejected-by-compiler']: raise HarnessError('a program over built-in types does not compile: %s' % p2.fails[0]['detail'])
    pst = compare_logs(ck, plain, pres, G, True)
    ck.extra_cov.update(programs=len(G), statements=sum(len(g.code) for g in G.values()), logged=stat, builtin_runs=pst)
    # code of other kinds next to a using directive
    ck.go([Unit('near%d' % i, near.PRO, near.lines(), near.END, compiler=c, flags=['-O1', '-std=c++' + m], runs=[(ck.seed, ck.tier[0])]) for i, (c, m) in enumerate([(GXX, '14'), (CLANG, '17'), (GXX, '20'), (CLANG, '14')])])
    g = next(iter(G.values())); ck.samples += [('%s: %s' % (g.pid, c))[:300] for c in g.code[:5]] + ['%s log: %s' % (g.pid, ' '.join('%d:%s' % x for x in g.traces[0][:20]))]
    return ck.finish()
