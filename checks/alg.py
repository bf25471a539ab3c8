"""Values as rational functions of the quantities they are computed from, in a normal form."""
from fractions import Fraction
from jv.terms import *


class Poly:
    """sums of monomials; a monomial is a sorted tuple of (atom, power)"""
    __slots__ = ('d',)

    def __init__(self, d): self.d = {m: c for m, c in d.items() if c}
    def __add__(self, o):
        r = dict(self.d)
        for m, c in o.d.items(): r[m] = r.get(m, 0) + c
        return Poly(r)

    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + -o
    def __mul__(self, o):
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = {}
                for a, p in m + n: k[a] = k.get(a, 0) + p
                q = tuple(sorted(k.items(), key=lambda x: repr(x[0])))
                r[q] = r.get(q, 0) + c * e
        return Poly(r)

    def __eq__(self, o): return self.d == o.d
    def __hash__(self): return hash(tuple(sorted(self.d.items(), key=repr)))
    @staticmethod
    def num(c): return Poly({(): Fraction(c)})
    @staticmethod
    def var(a): return Poly({((a, 1),): Fraction(1)})


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None): self.n, self.d = n, d if d is not None else Poly.num(1)
    def __add__(self, o): return Rat(self.n * o.d + o.n * self.d, self.d * o.d) if self.d != o.d else Rat(self.n + o.n, self.d)
    def __neg__(self): return Rat(-self.n, self.d)
    def __sub__(self, o): return self + -o
    def __mul__(self, o): return Rat(self.n * o.n, self.d * o.d)
    def __truediv__(self, o): return Rat(self.n * o.d, self.d * o.n)
    def same(self, o): return self.n * o.d == o.n * self.d


def V(a): return Rat(Poly.var(a))


def N(c): return Rat(Poly.num(c))


def frac(x):
    if isinstance(x, float):
        f = Fraction(x)
        g = f.limit_denominator(100000)
        return g if abs(f - g) < 1e-13 else f
    return Fraction(x)


def rat(t):
    """the value as a rational function; what is not arithmetic is an atom (with its arguments normalised)"""
    if t[0] == 'typed': return rat(t[2])
    if t[0] == 'c' and isinstance(t[1], (int, float)): return N(frac(t[1]))
    if t[0] == 'lin':
        k, d = lin_parts(t)
        r = N(frac(k))
        for a, c in d.items(): r = r + N(frac(c)) * rat(a)
        return r
    if t[0] == 'f/': return rat(t[1]) / rat(t[2])
    if t[0] == '*':
        r = N(1)
        for x in t[1]: r = r * rat(x)
        return r
    if t[0] == 'call' and len(t[2]): return V(('call', t[1]) + tuple(key(rat(x)) for x in t[2]))
    return V(t)


def key(r):
    """a hashable form (equal for equal polynomials)"""
    if len(r.d.d) == 1 and () in r.d.d: return ('poly', tuple(sorted(((m, c / r.d.d[()]) for m, c in r.n.d.items()), key=repr)))
    return ('rat', tuple(sorted(r.n.d.items(), key=repr)), tuple(sorted(r.d.d.items(), key=repr)))


class Undecided(Exception): pass


def brief(t, d=0):
    return '%s(%s)' % (t[0], ', '.join(brief(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and d < 3 else x if isinstance(x, str) else '..' for x in t[1:4]))


def value(t, env):
    """the value at a point: env gives the leaves; exact except for roots. Values of shared parts are kept in env under 'memo'"""
    if t[0] in ('c', 'sym'): return value_(t, env)
    memo = env.setdefault('memo', {})
    r = memo.get(id(t))
    if r is None:
        r = (value_(t, env), t)
        memo[id(t)] = r
    return r[0]


def value_(t, env):
    import math
    k = t[0]
    if k == 'typed': return value(t[2], env)
    if k == 'c': return frac(t[1]) if isinstance(t[1], (int, float)) else t[1]
    if k == 'B':
        return holds(t, env)
    if k == 'lin':
        s, d = lin_parts(t)
        s = frac(s)
        for a, c in d.items(): s = s + frac(c) * value(a, env)
        return s
    if k == '*':
        s = Fraction(1)
        for x in t[1]: s = s * value(x, env)
        return s
    if k == 'f/':
        b = value(t[2], env)
        if b == 0: return float('nan')
        return value(t[1], env) / b
    if k == 'ite': return value(t[2] if holds(t[1], env) else t[3], env)
    if k == 'call':
        a = [value(x, env) for x in t[2]]
        if t[1] in ('abs', 'fabs'): return abs(a[0])
        if t[1] == 'sqrt':
            r = math.isqrt(a[0].numerator) if isinstance(a[0], Fraction) and a[0] >= 0 else None
            if r is not None and r * r == a[0].numerator and math.isqrt(a[0].denominator) ** 2 == a[0].denominator: return Fraction(r, math.isqrt(a[0].denominator))
            return math.sqrt(a[0])
        if t[1] == 'pow': return a[0] ** int(a[1])
        if t[1] in ('min', 'max'): return (min if t[1] == 'min' else max)(a)
    if t in env: return env[t]
    raise Undecided(brief(t))


def holds(b, env):
    """truth of a condition"""
    if b == TRUE: return True
    if b == FALSE: return False
    if b[0] != 'B': return bool(value(b, env))
    n = b[1]
    from jv import terms
    while n > 1:
        v, hi, lo = terms._nodes[n]
        n = hi if istrue(terms._atoms[v], env) else lo
    return n == 1


def istrue(a, env):
    if a[0] == 'lt': return value(a[1], env) < value(a[2], env)
    if a[0] == 'eq': return value(a[1], env) == value(a[2], env)
    v = value(a, env)
    return bool(v)


def items(t, env):
    """the elements of a list at a point"""
    if t[0] == 'typed': return items(t[2], env)
    if t[0] == 'ite': return items(t[2] if holds(t[1], env) else t[3], env)
    if t[0] == 'append': return items(t[1], env) + [t[2]]
    if t[0] == 'concat': return items(t[1], env) + items(t[2], env)
    e = elems(t)
    if e is not None: return list(e)
    if t[0] == 'store':
        l, i = items(t[1], env), value(t[2], env)
        if not 0 <= i < len(l): raise Undecided('written outside')
        l[int(i)] = t[3]
        return l
    raise Undecided('list ' + brief(t))
