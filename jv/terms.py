"""Terms and boolean conditions of the value-numbering analysis.

A term is a nested tuple.  Conditions are reduced ordered decision diagrams over
uninterpreted atoms, so that two conditions with the same boolean meaning are the
same object.  Nothing here runs the analysed program: a term denotes "whatever
value this expression has", and equality of terms is congruence.
"""
import random, sys
sys.setrecursionlimit(100000)

class T(tuple):
    """interned term: structural equality is identity and the hash is cached"""

    def __hash__(self): return self.h

    def __eq__(self, o):
        if self is o: return True
        if type(o) is T: return False
        return tuple.__eq__(self, o)

    def __ne__(self, o): return not self.__eq__(o)


_intern = {}


def mk(t):
    """intern a tuple (children first)"""
    if type(t) is T: return t
    if any(type(x) is tuple for x in t):
        t = tuple(mk(x) if type(x) is tuple else x for x in t)
    # 1, 1.0 and True hash alike: keep them apart
    if len(t) == 2 and t[0] == 'c': k = (t, type(t[1]))
    elif t and t[0] == 'lin': k = (t, type(t[1]), tuple(type(c) for _, c in t[2]))
    else: k = t
    r = _intern.get(k)
    if r is None:
        r = T(t)
        r.h = tuple.__hash__(t)
        r.id = len(_intern)
        _intern[k] = r
    return r


TRUE = mk(('c', 1))
FALSE = mk(('c', 0))
NULL = FALSE
EMPTY = mk(('empty',))


def C(v):
    if v is True: v = 1
    if v is False: v = 0
    return mk(('c', v))


def is_c(t):
    return t[0] == 'c'


def is_num(t):
    return t[0] == 'c' and isinstance(t[1], (int, float))


# ---- decision diagrams -------------------------------------------------------
_atom_id = {}
_atoms = []
_nodes = [None, None]      # 0 = false, 1 = true
_uniq = {}
_ite_memo = {}


def _mk(v, hi, lo):
    if hi == lo: return hi
    k = (v, hi, lo)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def _ite(f, g, h):
    if f == 1: return g
    if f == 0: return h
    if g == h: return g
    if g == 1 and h == 0: return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None: return r
    v = _nodes[f][0]
    if g > 1: v = min(v, _nodes[g][0])
    if h > 1: v = min(v, _nodes[h][0])

    def co(n, b):
        if n <= 1 or _nodes[n][0] != v: return n
        return _nodes[n][1] if b else _nodes[n][2]
    r = _mk(v, _ite(co(f, 1), co(g, 1), co(h, 1)), _ite(co(f, 0), co(g, 0), co(h, 0)))
    _ite_memo[k] = r
    return r


def _constrain(f, c):
    """f simplified assuming c (c != 0)."""
    if c == 1 or f <= 1: return f
    if c == 0: return f
    if f == c: return 1
    vf, vc = _nodes[f][0], _nodes[c][0]
    v = min(vf, vc)
    f1, f0 = (_nodes[f][1], _nodes[f][2]) if vf == v else (f, f)
    c1, c0 = (_nodes[c][1], _nodes[c][2]) if vc == v else (c, c)
    if vf != v:  # c's top variable does not matter to f: quantify it out
        return _constrain(f, _ite(c1, 1, c0))
    if c1 == 0: return _constrain(f0, c0)
    if c0 == 0: return _constrain(f1, c1)
    return _mk(v, _constrain(f1, c1), _constrain(f0, c0))


def atom(t):
    """boolean term for an uninterpreted boolean-valued term"""
    t = mk(t)
    i = _atom_id.get(t)
    if i is None:
        i = len(_atoms)
        _atom_id[t] = i
        _atoms.append(t)
    return _wrap(_mk(i, 1, 0))


def _wrap(n):
    if n == 0: return FALSE
    if n == 1: return TRUE
    return mk(('B', n))


def _node(b):
    if b[0] == 'B': return b[1]
    if b == TRUE: return 1
    if b == FALSE: return 0
    return _node(truth(b))


def truth(t):
    """term -> condition"""
    k = t[0]
    if k == 'B': return t
    if k == 'c':
        return TRUE if t[1] not in (0, None, False, 0.0) else FALSE
    if k in ('addr', 'new', 'lambda'): return TRUE
    if k == 'ite': return B_ite(t[1], truth(t[2]), truth(t[3]))
    if k in BOOLISH: return atom(t)
    if k == 'typed' and t[1] == 'bool': return atom(t)
    return B_not(eq(t, C(0)))


BOOLISH = {'lt', 'contains', 'exits', 'exc', 'eq', 'flag'}


def B_not(a): return _wrap(_ite(_node(a), 0, 1))
def B_and(*xs):
    r = 1
    for x in xs: r = _ite(r, _node(x), 0)
    return _wrap(r)
def B_or(*xs):
    r = 0
    for x in xs: r = _ite(r, 1, _node(x))
    return _wrap(r)
def B_ite(c, a, b): return _wrap(_ite(_node(c), _node(a), _node(b)))
def B_constrain(f, c): return _wrap(_constrain(_node(f), _node(c)))


def is_bool(t):
    return t[0] == 'B' or (t[0] == 'c' and t[1] in (0, 1) and not isinstance(t[1], float))


def b_atoms(b):
    if b[0] != 'B': return []
    seen, out, st = set(), set(), [b[1]]
    while st:
        n = st.pop()
        if n <= 1 or n in seen: continue
        seen.add(n)
        v, h, l = _nodes[n]
        out.add(v)
        st += [h, l]
    return [_atoms[i] for i in sorted(out)]


def b_cofactors(b):
    """(atom, hi, lo) of the top node"""
    v, h, l = _nodes[b[1]]
    return _atoms[v], _wrap(h), _wrap(l)


def b_literals(b):
    """atoms that b forces: list of (atom, polarity)"""
    out = []
    for a in b_atoms(b):
        pa = atom(a)
        if B_and(b, B_not(pa)) == FALSE: out.append((a, True))
        elif B_and(b, pa) == FALSE: out.append((a, False))
    return out


# ---- values ------------------------------------------------------------------
def ite(c, a, b):
    c = truth(c)
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    if a[0] == 'B' or b[0] == 'B':
        if is_bool(a) and is_bool(b): return B_ite(c, a, b)
    if a == TRUE and b == FALSE: return c
    if a == FALSE and b == TRUE: return B_not(c)
    # collapse nested conditions
    if a[0] == 'ite':
        if a[1] == c: return ite(c, a[2], b)
        if B_and(c, B_not(a[1])) == FALSE: return ite(c, a[2], b)
        if B_and(c, a[1]) == FALSE: return ite(c, a[3], b)
    if b[0] == 'ite':
        nc = B_not(c)
        if B_and(nc, B_not(b[1])) == FALSE: return ite(c, a, b[2])
        if B_and(nc, b[1]) == FALSE: return ite(c, a, b[3])
        if b[2] == a: return ite(B_or(c, b[1]), a, b[3])
        if b[3] == a: return ite(B_or(c, B_not(b[1])), a, b[2])
    if a[0] == 'ite':
        if a[3] == b: return ite(B_and(c, a[1]), a[2], b)
        if a[2] == b: return ite(B_and(c, B_not(a[1])), a[3], b)
    return mk(('ite', c, a, b))


def simp(t, assume):
    """t simplified under the condition `assume`"""
    if assume in (TRUE, FALSE): return t
    if t[0] == 'B': return B_constrain(t, assume)
    if t[0] == 'ite':
        if B_and(assume, B_not(t[1])) == FALSE: return simp(t[2], assume)
        if B_and(assume, t[1]) == FALSE: return simp(t[3], assume)
    return t


def _key(t):
    return mk(t).id


def lin_parts(t):
    """-> (const, {term: coef})"""
    if t[0] == 'lin': return t[1], dict(t[2])
    if is_num(t): return t[1], {}
    return 0, {t: 1}


def mk_lin(k, d):
    d = {t: c for t, c in d.items() if c != 0}
    if not d: return C(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1: return t
    return mk(('lin', k, tuple(sorted(d.items(), key=lambda x: _key(x[0])))))


def add(a, b, sb=1):
    if sb == -1 and b[0] == 'addr' and a[0] == 'addr' and b[1][0] == 'elem' and a[1][0] == 'elem' and a[1][1] == b[1][1]:
        return add(a[1][2], b[1][2], -1)
    if a[0] == 'addr' and a[1][0] == 'elem':
        return ('addr', ('elem', a[1][1], add(a[1][2], b, sb)))
    if a[0] == 'c' and isinstance(a[1], str) or b[0] == 'c' and isinstance(b[1], str):
        if is_c(a) and is_c(b) and isinstance(a[1], str) and isinstance(b[1], str) and sb == 1:
            return C(a[1] + b[1])
        return ('strcat', a, b)
    if a[0] == 'ite' and is_num(b): return ite(a[1], add(a[2], b, sb), add(a[3], b, sb))
    if b[0] == 'ite' and is_num(a): return ite(b[1], add(a, b[2], sb), add(a, b[3], sb))
    k1, d1 = lin_parts(num(a)); k2, d2 = lin_parts(num(b))
    for t, c in d2.items(): d1[t] = d1.get(t, 0) + sb * c
    return mk_lin(k1 + sb * k2, d1)


def num(t):
    """a condition used as a number"""
    if t[0] == 'B': return ('ite', t, C(1), C(0))
    return t


EXPAND = [None]  # products of sums of more terms than this stay products


def mul(a, b):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b): return C(a[1] * b[1])
    if is_num(b): a, b = b, a
    if is_num(a):
        if b[0] == 'ite': return ite(b[1], mul(a, b[2]), mul(a, b[3]))
        k, d = lin_parts(b)
        return mk_lin(k * a[1], {t: c * a[1] for t, c in d.items()})
    fs = []
    coef = 1
    for x in (a, b):
        if x[0] == '*': fs += list(x[1])
        elif x[0] == 'lin':
            fs.append(x)
        else: fs.append(x)
    # distribute over sums so that (a+b)*c and a*c+b*c agree
    if EXPAND[0] is not None:
        n = 1
        for x in fs:
            if x[0] == 'lin': n *= len(x[2]) + (x[1] != 0)
        if n > EXPAND[0]: return mk(('*', tuple(sorted(fs, key=_key))))
    for i, x in enumerate(fs):
        if x[0] == 'lin':
            rest = None
            for j, y in enumerate(fs):
                if j != i: rest = y if rest is None else mul(rest, y)
            r = C(0)
            k, d = lin_parts(x)
            r = mul(C(k), rest) if k else C(0)
            for t, c in d.items():
                r = add(r, mul(C(c), mul(t, rest)))
            return r
    return mk(('*', tuple(sorted(fs, key=_key))))


def cdiv(a, b):
    if b == 0: return 0
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def div(a, b, isint=True):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b) and b[1] != 0:
        if isint and isinstance(a[1], int) and isinstance(b[1], int): return C(cdiv(a[1], b[1]))
        return C(a[1] / b[1])
    if is_num(b) and b[1] == 1: return a
    if a[0] == 'ite' and is_num(b): return ite(a[1], div(a[2], b, isint), div(a[3], b, isint))
    if not isint and is_num(b) and b[1] != 0: return mul(a, C(1.0 / b[1]))
    return mk(('/' if isint else 'f/', a, b))


def mod(a, b):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b) and b[1] != 0: return C(a[1] - cdiv(a[1], b[1]) * b[1])
    if a[0] == 'ite' and is_num(b): return ite(a[1], mod(a[2], b), mod(a[3], b))
    return mk(('%', a, b))


def nonnull(t):
    return t[0] in ('addr', 'new', 'lambda')


def eq(a, b):
    if a == b: return TRUE
    if is_c(a) and is_c(b):
        if type(a[1]) == type(b[1]) or is_num(a) and is_num(b): return C(a[1] == b[1])
        return FALSE
    if a[0] == 'ite' and (is_c(b) or is_c(a[2]) and is_c(a[3])):
        return B_ite(a[1], eq(a[2], b), eq(a[3], b))
    if b[0] == 'ite' and (is_c(a) or is_c(b[2]) and is_c(b[3])):
        return B_ite(b[1], eq(a, b[2]), eq(a, b[3]))
    if a[0] == 'pair' and b[0] == 'pair': return B_and(eq(a[1], b[1]), eq(a[2], b[2]))
    ab, bb = a[0] == 'B', b[0] == 'B'
    if ab or bb:
        x, y = truth(a), truth(b)
        return B_ite(x, y, B_not(y))
    if (nonnull(a) and b == NULL) or (nonnull(b) and a == NULL): return FALSE
    if a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'elem' and b[1][0] == 'elem' and a[1][1] == b[1][1]:
        return eq(a[1][2], b[1][2])
    for x, y in ((a, b), (b, a)):
        if x[0] in ('sfind', 'mfind') and y[0] == 'addr' and y[1][0] == 'elem' and y[1][1] == x[1]:
            return B_not(atom(('contains', x[2], x[3])))
    if a[0] == 'new' and b[0] == 'new': return FALSE
    for x, y in ((a, b), (b, a)):
        if y == C(0) and x[0] in BOOLISH: return B_not(atom(x))
        if y == C(1) and x[0] in BOOLISH: return atom(x)
        if x[0] == 'typed' and x[1] == 'bool' and is_c(y):
            return atom(x) if y[1] else B_not(atom(x))
    # a - b normalised
    if a[0] in ('lin',) or b[0] in ('lin',):
        k, d = lin_parts(add(a, b, -1))
        if not d: return C(k == 0)
        items = sorted(d.items(), key=lambda x: _key(x[0]))
        if items[0][1] < 0:
            k = -k; items = [(t, -c) for t, c in items]
        pos = {t: c for t, c in items if c > 0}; neg = {t: -c for t, c in items if c < 0}
        a = mk_lin(0, pos); b = mk_lin(-k, neg)
    if _key(a) > _key(b): a, b = b, a
    return atom(('eq', a, b))


def lt(a, b):
    if a == b: return FALSE
    if is_num(a) and is_num(b): return C(a[1] < b[1])
    if a[0] == 'ite' and is_c(b): return B_ite(a[1], lt(a[2], b), lt(a[3], b))
    if b[0] == 'ite' and is_c(a): return B_ite(b[1], lt(a, b[2]), lt(a, b[3]))
    if a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'elem' and b[1][0] == 'elem' and a[1][1] == b[1][1]:
        return lt(a[1][2], b[1][2])
    a, b = num(a), num(b)
    if a[0] == 'lin' or b[0] == 'lin':
        k, d = lin_parts(add(a, b, -1))
        if not d: return C(k < 0)
        pos = {t: c for t, c in d.items() if c > 0}; neg = {t: -c for t, c in d.items() if c < 0}
        a = mk_lin(0, pos); b = mk_lin(-k, neg)
    # size(x) >= 0
    if a == C(0) and b[0] == 'size':
        return B_not(atom_eq0(b))
    if b == C(1) and a[0] == 'size': return atom_eq0(a)
    if b == C(0) and a[0] == 'size': return FALSE
    return atom(('lt', a, b))


def atom_eq0(t):
    return eq(t, C(0))


# ---- sequences ---------------------------------------------------------------
def size(c):
    k = c[0]
    if k == 'empty': return C(0)
    if k == 'append': return add(size(c[1]), C(1))
    if k == 'store': return size(c[1])
    if k == 'resize': return c[2]
    if k == 'concat': return add(size(c[1]), size(c[2]))
    if k == 'list': return C(len(c[1]))
    if k == 'ite': return ite(c[1], size(c[2]), size(c[3]))
    if k == 'map' and c[3] == TRUE and c[2][1][0] == 'range': return add(size(c[1]), c[2][1][1])
    if k == 'filled' or k == 'copyinto': return size(c[1])
    if k == 'c' and isinstance(c[1], str): return C(len(c[1]))
    if k == 'slice': return add(c[3], c[2], -1)
    if k == 'call' and c[1] == 'range' and c[2][0][0] != 'addr': return add(c[2][1], c[2][0], -1)
    if k == 'after' and c[3] and all(same_length(v, c[1]) for v in c[3]): return size(c[2])
    if k == 'load' and c[1][0] == 'fld' and c[1][2] in ARRAYS: return C(ARRAYS[c[1][2]])
    return mk(('size', c))


ARRAYS = {}     # fields that are arrays of a fixed length


def same_length(v, L):
    while v[0] == 'store': v = v[1]
    if v[0] == 'ite': return same_length(v[2], L) and same_length(v[3], L)
    return v[0] == 'hav' and v[1] == L


def concat(a, b):
    if a == EMPTY: return b
    if b == EMPTY: return a
    if b[0] == 'list':
        for x in b[1]: a = append(a, x)
        return a
    if b[0] == 'concat': return concat(concat(a, b[1]), b[2])
    return mk(('concat', a, b))


def append(a, v):
    if a == EMPTY: return ('list', (v,))
    if a[0] == 'list': return ('list', a[1] + (v,))
    return mk(('append', a, v))


def store(c, i, v):
    if c[0] == 'store' and c[2] == i: return ('store', c[1], i, v)
    if c[0] == 'list' and is_num(i) and isinstance(i[1], int) and 0 <= i[1] < len(c[1]):
        l = list(c[1]); l[i[1]] = v
        return ('list', tuple(l))
    return mk(('store', c, i, v))


def resize(c, n, v):
    if n == C(0): return EMPTY
    l = elems(c)
    if l is not None and small(n):
        k = n[1]
        if k <= len(l) or v is not None: return ('list', tuple(l[:k]) + (v,) * (k - len(l)))
    return mk(('resize', c, n, v))


def small(n): return is_num(n) and isinstance(n[1], int) and 0 <= n[1] <= 1000


def elems(c):
    """the elements of a list that is known"""
    if c == EMPTY: return ()
    return c[1] if c[0] == 'list' else None


def erase(c, *idx):
    l = elems(c)
    if l is not None and all(small(i) for i in idx):
        a, b = idx[0][1], idx[1][1] if len(idx) == 2 else idx[0][1] + 1
        if a <= b <= len(l): return lst(l[:a] + l[b:])
    return mk(('erase', c) + tuple(idx))


def insertat(c, i, s):
    l, m = elems(c), elems(s)
    if l is not None and m is not None and small(i) and i[1] <= len(l): return lst(l[:i[1]] + m + l[i[1]:])
    return mk(('insertat', c, i, s))


def lst(x): return ('list', tuple(x)) if x else EMPTY


def slice_(c, a, b):
    l = elems(c)
    if l is not None and small(a) and small(b) and a[1] <= b[1] <= len(l): return lst(l[a[1]:b[1]])
    return mk(('slice', c, a, b))


def index(c, i):
    k = c[0]
    if k == 'list' and is_num(i) and isinstance(i[1], int) and 0 <= i[1] < len(c[1]): return c[1][i[1]]
    if k == 'store':
        if c[2] == i: return c[3]
        d = add(c[2], i, -1) if (i[0] in ('lin', 'c') or c[2][0] in ('lin', 'c')) else None
        if is_c(i) and is_c(c[2]) and i != c[2]: return index(c[1], i)
        if d is not None and is_num(d) and d[1] != 0: return index(c[1], i)
    if k == 'append':
        if size(c[1]) == i: return c[2]
    if k == 'ite': return ite(c[1], index(c[2], i), index(c[3], i))
    if k == 'filled':
        return subst(c[3], {('iter', c[2][0]): add(i, c[2][2], -1)})
    if k == 'copyinto' and is_num(i) and is_num(c[2]):
        n = size(c[3])
        if i[1] < c[2][1]: return index(c[1], i)
        if is_num(n): return index(c[3], add(i, c[2], -1)) if i[1] < c[2][1] + n[1] else index(c[1], i)
    if k == 'slice': return index(c[1], add(i, c[2]))
    if k == 'uninit': return c
    if k == 'call' and c[1] == 'range' and c[2][0][0] != 'addr': return mk(('load', ('elem', ('arr', c[2][0]), i)))
    if k == 'resize' and c[1] == EMPTY: return c[3] if c[3] is not None else ('idx', c, i)
    if k == 'concat' and is_num(i) and c[1][0] == 'list' and i[1] < len(c[1][1]): return index(c[1], i)
    return mk(('idx', c, i))


_subst_memo = {}


def subst(t, m, memo=None):
    """replace leaves; conditions are rebuilt"""
    if memo is None: memo = {}
    t = mk(t)
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    k = t[0]
    if k == 'c': r = t
    elif k == 'B': r = _subst_b(t[1], m, {}, memo)
    else: r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def _subst_b(n, m, memo, tm=None):
    if tm is None: tm = {}
    if n == 0: return FALSE
    if n == 1: return TRUE
    if n in memo: return memo[n]
    v, h, l = _nodes[n]
    a = _atoms[v]
    if a in m: a2 = truth(m[a])
    else:
        if a[0] == 'eq': a2 = eq(subst(a[1], m, tm), subst(a[2], m, tm))
        elif a[0] == 'lt': a2 = lt(subst(a[1], m, tm), subst(a[2], m, tm))
        else: a2 = truth(subst(a, m, tm))
    r = B_ite(a2, _subst_b(h, m, memo, tm), _subst_b(l, m, memo, tm))
    memo[n] = r
    return r


def rebuild(t, f):
    k = t[0]
    if k == 'c': return t
    if k == 'lin':
        r = C(t[1])
        for x, c in t[2]: r = add(r, mul(C(c), f(x)))
        return r
    if k == '*':
        r = None
        for x in t[1]: r = f(x) if r is None else mul(r, f(x))
        return r
    if k == '/': return div(f(t[1]), f(t[2]))
    if k == 'f/': return div(f(t[1]), f(t[2]), False)
    if k == '%': return mod(f(t[1]), f(t[2]))
    if k == 'ite': return ite(f(t[1]), f(t[2]), f(t[3]))
    if k == 'size': return size(f(t[1]))
    if k == 'idx': return index(f(t[1]), f(t[2]))
    if k == 'append': return append(f(t[1]), f(t[2]))
    if k == 'store': return store(f(t[1]), f(t[2]), f(t[3]))
    if k == 'concat': return concat(f(t[1]), f(t[2]))
    if k == 'resize': return resize(f(t[1]), f(t[2]), None if t[3] is None else f(t[3]))
    if k == 'erase': return erase(*[f(x) for x in t[1:]])
    if k == 'insertat': return insertat(*[f(x) for x in t[1:]])
    if k == 'slice': return slice_(*[f(x) for x in t[1:]])

    def g(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in KINDS or (x and isinstance(x[0], str) and len(x) > 1): return f(x)
            if x == EMPTY: return x
            return tuple(g(y) for y in x)
        return x
    return mk((k,) + tuple(g(x) for x in t[1:]))


KINDS = {'c', 'B', 'lin', '*', '/', 'f/', '%', 'ite', 'size', 'idx', 'append', 'store', 'concat', 'list', 'load', 'call',
         'sym', 'iter', 'hav', 'out', 'addr', 'new', 'typed', 'after', 'map', 'filled', 'resize', 'fld', 'elem', 'var',
         'deref', 'fldof', 'mut', 'unk', 'cast', 'uninit', 'eq', 'lt', 'contains', 'exits'}


def walk(t, seen=None):
    """all sub-terms (conditions are opened)"""
    st = [mk(t)]
    seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x and isinstance(x[0], str): yield x
        if x and x[0] == 'B':
            st += b_atoms(x)
            continue
        st += [y for y in x if isinstance(y, tuple)]


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---- satisfiability over atoms -------------------------------------------------
class Eval:
    """One interpretation of the uninterpreted leaves (used for equivalence of
    arithmetic/conditional terms by random interpretation)."""

    def __init__(self, rnd, universe):
        self.r, self.u, self.m, self.memo, self.km, self.kt = rnd, universe, {}, {}, {}, {}

    def leaf(self, key, sig):
        v = self.m.get(key)
        if v is None:
            u = self.u.get(sig) or self.u.get('*')
            v = self.m[key] = self.r.choice(u)
        return v

    def b(self, n):
        while n > 1:
            v, h, l = _nodes[n]
            n = h if self.at(_atoms[v]) else l
        return n

    def at(self, a):
        if a[0] == 'eq': return self.ev(a[1]) == self.ev(a[2])
        if a[0] == 'lt':
            x, y = self.ev(a[1]), self.ev(a[2])
            return x < y if isinstance(x, (int, float)) and isinstance(y, (int, float)) else self.leaf(('lt', x, y), 'bool') == 1
        key = self.key(a)
        return self.leaf(('atom', key), 'bool') == 1

    def key(self, t):
        """value (interpreted terms) or a congruence class number"""
        if not isinstance(t, tuple): return t
        r = self.km.get(t)
        if r is not None: return r
        if t and isinstance(t[0], str) and t[0] in INTERP: r = ('v', self.ev(t))
        else:
            k = tuple(self.key(x) if isinstance(x, tuple) else x for x in t)
            r = ('k', self.kt.setdefault(k, len(self.kt)))
        self.km[t] = r
        return r

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev1(t)
        return r

    def ev1(self, t):
        k = t[0]
        if k == 'c': return t[1]
        if k == 'B': return self.b(t[1])
        if k == 'lin':
            s = t[1]
            for x, c in t[2]: s = s + c * self.n(self.ev(x))
            return s
        if k == '*':
            s = 1
            for x in t[1]: s = s * self.n(self.ev(x))
            return s
        if k == '/': return cdiv(self.n(self.ev(t[1])), self.n(self.ev(t[2])))
        if k == '%':
            a, b = self.n(self.ev(t[1])), self.n(self.ev(t[2]))
            return a - cdiv(a, b) * b if b else 0
        if k == 'ite': return self.ev(t[2]) if self.ev(t[1]) else self.ev(t[3])
        return self.leaf(self.key(t), t)

    def n(self, v):
        return v if isinstance(v, (int, float)) else (hash(v) % 1000003)


INTERP = {'c', 'B', 'lin', '*', '/', '%', 'ite'}


def _universe(ts):
    u = {}
    consts = {0, 1, 2, 3}
    for t in ts:
        for x in walk(t):
            if x[0] in ('eq', 'lt'):
                for a, b in ((x[1], x[2]), (x[2], x[1])):
                    if is_num(b):
                        u.setdefault(a, set()).update([b[1] - 1, b[1], b[1] + 1])
                    if is_c(b) and isinstance(b[1], str):
                        u.setdefault(a, set()).update([b[1], '?'])
    # leaves compared with each other share a universe
    for t in ts:
        for x in walk(t):
            if x[0] == 'eq' and not is_c(x[1]) and not is_c(x[2]):
                s = u.get(x[1], set()) | u.get(x[2], set()) | {0, 1, 2}
                u[x[1]] = s
                u[x[2]] = s
    res = {k: sorted(v, key=repr) for k, v in u.items()}
    res['*'] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 20, 21]
    res['bool'] = [0, 1]
    return res


def sat(cond, n=4000, seed=1):
    """an interpretation under which cond holds, or None.  (Boolean
    contradictions are exact; arithmetic ones by random interpretation.)"""
    cond = truth(cond)
    if cond == FALSE: return None
    u = _universe([cond])
    rnd = random.Random(seed)
    for _ in range(n):
        e = Eval(rnd, u)
        if e.ev(cond): return e
    # directed search: walk the diagram's true paths, check equalities consistently
    for path in _paths(cond, 256):
        if _consistent(path): return path
    return None


def _paths(b, limit):
    out = []

    def rec(n, acc):
        if len(out) >= limit: return
        if n == 1: out.append(list(acc)); return
        if n == 0: return
        v, h, l = _nodes[n]
        rec(h, acc + [(_atoms[v], True)])
        rec(l, acc + [(_atoms[v], False)])
    rec(_node(b), [])
    return out


def _consistent(path):
    """cheap consistency of a cube: equalities with constants, disequalities, bounds"""
    val = {}
    for a, p in path:
        if a[0] == 'eq' and p:
            x, y = a[1], a[2]
            if is_c(y): x, y = y, x
            if is_c(x):
                if y in val and val[y] != x: return False
                val[y] = x
    m = {t: c for t, c in val.items()}
    for a, p in path:
        if a[0] == 'eq':
            r = eq(subst(a[1], m), subst(a[2], m))
        elif a[0] == 'lt':
            r = lt(subst(a[1], m), subst(a[2], m))
        else: continue
        if r == FALSE and p or r == TRUE and not p: return False
    pos = [a for a, p in path if p and a[0] == 'lt']
    neg = [a for a, p in path if not p and a[0] == 'lt']
    for a in pos:
        if ('lt', a[2], a[1]) in pos: return False
    # integer bounds on one term
    lo, hi = {}, {}
    for a, p in path:
        if a[0] != 'lt': continue
        if is_num(a[2]):
            if p: hi[a[1]] = min(hi.get(a[1], 1e18), a[2][1] - 1)
            else: lo[a[1]] = max(lo.get(a[1], -1e18), a[2][1])
        if is_num(a[1]):
            if p: lo[a[2]] = max(lo.get(a[2], -1e18), a[1][1] + 1)
            else: hi[a[2]] = min(hi.get(a[2], 1e18), a[1][1])
    for t in lo:
        if lo[t] > hi.get(t, 1e18): return False
    for t, c in val.items():
        if is_num(c) and (c[1] < lo.get(t, -1e18) or c[1] > hi.get(t, 1e18)): return False
    return True


def implies(a, b):
    return sat(B_and(truth(a), B_not(truth(b)))) is None


def same(a, b, n=300, seed=7):
    """are two terms equal under every interpretation tried?"""
    if a == b: return True
    a, b = alpha(a), alpha(b)
    if a == b: return True
    u = _universe([a, b])
    rnd = random.Random(seed)
    for _ in range(n):
        e = Eval(rnd, u)
        if e.key(a) != e.key(b): return False
    return True


def alpha(t):
    """rename loop symbols in order of appearance"""
    ids = {}

    memo = {}

    def f(x):
        if not isinstance(x, tuple): return x
        x = mk(x)
        r = memo.get(x)
        if r is None: r = memo[x] = f1(x)
        return r

    def f1(x):
        if x and x[0] == 'iter':
            return mk(('iter', ids.setdefault(x[1], len(ids))))
        if x and x[0] == 'B':
            return _subst_b(x[1], _M(f), {})
        if x == EMPTY or not x: return x
        if isinstance(x[0], str): return rebuild(x, f)
        return mk(tuple(f(y) for y in x))
    return f(t)


class _M(dict):
    def __init__(self, f): self.f = f
    def __contains__(self, k): return k[0] not in ('eq', 'lt', 'B', 'c')
    def __getitem__(self, k): return self.f(k)


def show(t, d=0):
    """readable rendering"""
    if not isinstance(t, tuple): return str(t)
    if t == (): return '()'
    k = t[0]
    if d > 7: return '..'
    s = lambda x: show(x, d + 1)
    if k == 'c': return repr(t[1])
    if k == 'B':
        ps = _paths(t, 5)
        def lit(a, p):
            if a[0] == 'eq': return '%s%s%s' % (s(a[1]), '==' if p else '!=', s(a[2]))
            if a[0] == 'lt': return '%s%s%s' % (s(a[1]), '<' if p else '>=', s(a[2]))
            return ('' if p else '!') + s(a)
        return ' || '.join(' && '.join(lit(a, p) for a, p in path) for path in ps) + (' || ..' if len(ps) == 5 else '')
    if k == 'lin':
        return '(' + ' + '.join(([str(t[1])] if t[1] else []) + [('%s*' % c if c != 1 else '') + s(x) for x, c in t[2]]) + ')'
    if k == '*': return '*'.join(s(x) for x in t[1])
    if k in ('/', '%', 'f/'): return '(%s%s%s)' % (s(t[1]), k[-1], s(t[2]))
    if k == 'ite': return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'sym': return str(t[1])
    if k == 'load': return s(t[1])
    if k == 'typed': return s(t[2])
    if k == 'fld': return (s(t[1]) + '->' if t[1] != ('sym', 'this') else '') + t[2].split('::')[-1]
    if k == 'fldof': return s(t[1]) + '.' + t[2].split('::')[-1]
    if k == 'elem' or k == 'idx': return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'iter': return 'i%s' % t[1]
    if k == 'call': return '%s(%s)' % (t[1].split('::')[-1], ', '.join(s(x) for x in t[2]))
    if k == 'out': return 'out%d:%s' % (t[2], s(t[1]))
    if k == 'size': return '|%s|' % s(t[1])
    if k == 'addr': return '&' + s(t[1])
    if k == 'deref': return '*' + s(t[1])
    if k == 'list': return '[' + ','.join(s(x) for x in t[1]) + ']'
    return '%s(%s)' % (k, ', '.join(s(x) for x in t[1:]))
