"""C++ type specifications used by the generators."""
INTS = [('std::int8_t', 8, 1), ('std::uint8_t', 8, 0), ('std::int16_t', 16, 1), ('std::uint16_t', 16, 0),
        ('std::int32_t', 32, 1), ('std::uint32_t', 32, 0), ('std::int64_t', 64, 1), ('std::uint64_t', 64, 0)]
EXTRA = [('char', 8, 1), ('long long', 64, 1), ('unsigned long long', 64, 0), ('wchar_t', 32, 1), ('char16_t', 16, 0)]


# an operand may also be a truth value, an enumerator or an object which converts to an integer
OTHERS = [('bool', 1, 0)] + [('mon::en<%s>::type' % x[0], x[1], x[2]) for x in INTS] + [('mon::num<%s>' % x[0], x[1], x[2]) for x in INTS]


def lim(bits, sgn):
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if sgn else (0, (1 << bits) - 1)


def lit(v):
    """C++ spelling of v with a type that can hold it"""
    if v == -(1 << 63): return '(-9223372036854775807LL-1)'
    if v > (1 << 63) - 1: return '%dULL' % v
    if v > (1 << 31) - 1 or v < -(1 << 31) + 1: return '%dLL' % v
    return '%d' % v


class Ty:
    def __init__(self, cxx, name, lo, hi, safe, kind):
        self.cxx = cxx; self.name = name; self.lo = lo; self.hi = hi; self.safe = safe; self.kind = kind

    def __repr__(self):
        return self.name


def short(c):
    return c.replace('std::', '').replace('mon::', '').replace('::type', '').replace('_t', '').replace(' ', '_')


def builtin(t):
    lo, hi = lim(t[1], t[2])
    return Ty(t[0], short(t[0]), lo, hi, False, 'builtin')


def safe(t, P='sn::native', E='sn::default_exception_policy', tag=''):
    lo, hi = lim(t[1], t[2])
    return Ty('sn::safe<%s,%s,%s>' % (t[0], P, E), 'safe<%s%s>' % (short(t[0]), tag), lo, hi, True, 'safe')


def srange(lo, hi, P='sn::native', E='sn::default_exception_policy', tag=''):
    return Ty('sn::safe_signed_range<%s,%s,%s,%s>' % (lit(lo), lit(hi), P, E), 'srange<%d,%d%s>' % (lo, hi, tag), lo, hi, True, 'range')


def urange(lo, hi, P='sn::native', E='sn::default_exception_policy', tag=''):
    return Ty('sn::safe_unsigned_range<%s,%s,%s,%s>' % (lit(lo), lit(hi), P, E), 'urange<%d,%d%s>' % (lo, hi, tag), lo, hi, True, 'range')


def sliteral(n, P='void', E='void'):
    return Ty('sn::safe_signed_literal<%s,%s,%s>' % (lit(n), P, E), 'slit<%d>' % n, n, n, True, 'literal')


def uliteral(n, P='void', E='void'):
    return Ty('sn::safe_unsigned_literal<%s,%s,%s>' % (lit(n), P, E), 'ulit<%d>' % n, n, n, True, 'literal')


def rand_int(rng, bits, sgn):
    lo, hi = lim(bits, sgn)
    k = rng.randrange(7)
    if k == 0: return rng.choice([lo, hi, 0, 1, min(hi, 2), hi - 1, lo + 1])
    if k == 1: v = (1 << rng.randrange(bits)) + rng.choice([-1, 0, 1])
    elif k == 2: v = rng.randrange(0, 20)
    elif k == 3: v = rng.getrandbits(rng.randrange(1, bits + 1))
    elif k == 4: v = rng.randrange(0, 300)
    else: v = rng.randrange(lo, hi + 1)
    if sgn and v > 0 and rng.random() < .5: v = -v
    return min(hi, max(lo, v))


def rand_range(rng, sgn=None, small=False):
    """(lo,hi,sgn): shapes: tiny, narrow-high, one-sided, crossing zero, single valued, power-of-two edges, huge"""
    if sgn is None: sgn = rng.random() < .6
    bits = rng.choice([8, 8, 16, 32, 64]) if not small else 8
    shape = rng.randrange(9)
    L, H = lim(bits, sgn)
    if shape == 0: lo, hi = (-rng.randrange(0, 12) if sgn else 0), rng.randrange(0, 12)
    elif shape == 1:
        c = rand_int(rng, bits, sgn); lo, hi = c, c + rng.randrange(0, 16)
    elif shape == 2:
        lo, hi = 0, rand_int(rng, bits, 0)
    elif shape == 3:
        lo, hi = rng.randrange(1, 10), abs(rand_int(rng, bits, sgn))
    elif shape == 4:
        k = rng.randrange(1, bits); lo, hi = (1 << k - 1) + rng.choice([-1, 0, 1]), (1 << k) + rng.choice([-1, 0, 1])
        if sgn and rng.random() < .5: lo, hi = -hi, -lo
    elif shape == 5 and sgn: lo, hi = -abs(rand_int(rng, bits, 1)), -rng.randrange(0, 3)
    elif shape == 6: lo, hi = L + rng.randrange(0, 3), H - rng.randrange(0, 3)
    else: lo, hi = rand_int(rng, bits, sgn), rand_int(rng, bits, sgn)
    if lo > hi: lo, hi = hi, lo
    L, H = lim(64, sgn)
    lo = min(H, max(L, lo)); hi = min(H, max(L, hi))
    return lo, hi, sgn


def rand_range_ty(rng, P='sn::native', E='sn::default_exception_policy', small=False, sgn=None):
    lo, hi, s = rand_range(rng, sgn, small)
    return srange(lo, hi, P, E) if s else urange(lo, hi, P, E)


def rand_lit(rng, P='void', E='void'):
    if rng.random() < .6: return sliteral(rand_int(rng, rng.choice([8, 16, 32, 64]), 1), P, E)
    return uliteral(rand_int(rng, rng.choice([8, 16, 32, 64]), 0), P, E)
