"""C25: points are vectors of one, two or three components."""
from .objs import *
from . import alg
from .alg import rat, V, N

RULE = ('Every constructor, assignment, accessor and operator of points is evaluated on points of one, two and three dimensions whose components are free; the results are brought to a normal form of '
        'rational functions and compared, component by component, with vector algebra. Components beyond the dimension hold unknown values, so that a result that depends on them differs.')
G = 'JaliGeometry::'
PT = G + 'Point'
D, X = PT + '::d', PT + '::xyz'
P = mk(('new', 900, PT))


def comps(n): return [('sym', '%s%d' % (n, i)) for i in range(3)]


def value(n, d): return ('obj', ('sym', 'whole_' + n), ((D, C(d)), (X, lst(tuple(comps(n))))))


class W:
    def __init__(self, F): self.F, self.und = F, False

    def heap(self, d):
        h = Heap(self.F)
        if d is not None:
            h.m[mk(('fld', P, D))] = C(d)
            h.m[mk(('fld', P, X))] = lst(tuple(comps('p')))
        return h

    def state(self, h, o):
        """(dimension, components) of a point object"""
        d, x = h.m.get(mk(('fld', o, D))), h.m.get(mk(('fld', o, X)))
        return self.dims(d, x)

    def dims(self, d, x):
        if d is None or x is None or not is_num(d): return None
        return d[1], [index(x, C(i)) for i in range(max(0, min(3, d[1])))]

    def val(self, I, t):
        """the same of a point value"""
        if t is None or t[0] == 'ite': return None
        return self.dims(I.fieldof(t, D), I.fieldof(t, X))


def same(a, b): return rat(a).same(b)


def check():
    ck = Check('C25', RULE)
    ck.bounds()
    F = ck.load('geometry')
    w = W(F)
    fs = [f for f in F.funcs.values() if f.get('body') is not None and (f['qn'].startswith(PT + '::') or f['qn'].startswith(G + 'operator') or f['qn'] in (G + 'L22', G + 'norm'))
          and (f['qn'].startswith(PT + '::') or any(noref(p['t']).replace('const ', '') == PT for p in f['params']))]
    ck.need(len(fs), 20, 'functions of points')
    for f in fs: one(ck, w, f)
    printing(ck, F)
    return ck.finish()


def printing(ck, F):
    """the coordinates are written, in order and no others"""
    fs = [f for f in F.fns(G + 'operator<<') if f.get('body') is not None and len(f['params']) == 2 and noref(f['params'][1]['t']).replace('const ', '') == PT]
    for f in fs:
        bad, und = None, False
        for d in (1, 2, 3):
            h = Heap(F)
            h.call(f, None, {f['params'][1]['n']: value('q', d)})
            ev = [e for e in h.I.events if e.kind == 'stream']
            if not ev or any(e.pc != TRUE for e in ev) or any(e.val[0] == 'ite' for e in ev): und = True; continue
            out = [e.val for e in ev if not (e.val[0] == 'c' and isinstance(e.val[1], str))]
            if out != comps('q')[:d]: bad = bad or 'of %d coordinates it writes %s' % (d, ' '.join(short(x) for x in out))
        ck.ob('writing a point writes its coordinates', False if bad else None if und else True, at(f), bad or '', 'print')


def sig(f):
    out = ''
    for p in f['params']:
        t = noref(p['t']).replace('const ', '').strip()
        out += {PT: 'P', 'double': 'r', 'int': 'n', 'double *': 'a', 'unsigned int': 'n'}.get(t, '?')
    return out


def want(name, s, d):
    """what a function must give: ('this', dim, components), ('value', dim, components), ('number', x); None: not known here"""
    p, q = [V(c) for c in comps('p')], [V(c) for c in comps('q')]
    r, r2, r3 = V(('sym', 'r')), V(('sym', 'r2')), V(('sym', 'r3'))
    a = [V(('sym', 'a%d' % i)) for i in range(3)]
    z = N(0)
    dot = lambda u, v: sum((u[i] * v[i] for i in range(1, d)), u[0] * v[0])
    T = {
        ('Point', 'ctor', ''): ('this', 0, []), ('Point', 'ctor', 'n'): ('this', d, [z] * d), ('Point', 'ctor', 'rr'): ('this', 2, [r, r2]), ('Point', 'ctor', 'rrr'): ('this', 3, [r, r2, r3]),
        ('Point', 'ctor', 'P'): ('this', d, q[:d]),
        ('set', 'm', 'r'): ('this', d, [r] * d), ('set', 'm', 'P'): ('this', d, q[:d]), ('set', 'm', 'a'): ('this', d, a[:d]), ('set', 'm', 'na'): ('this', d, a[:d]),
        ('set', 'm', 'rr'): ('this', 2, [r, r2]), ('set', 'm', 'rrr'): ('this', 3, [r, r2, r3]),
        ('is_valid', 'm', ''): ('number', N(1)), ('dim', 'm', ''): ('number', N(d)),
        ('x', 'm', ''): ('number', p[0]), ('y', 'm', ''): ('number', p[1] if d > 1 else z), ('z', 'm', ''): ('number', p[2] if d > 2 else z),
        ('operator=', 'm', 'P'): ('this', d, q[:d]), ('operator+=', 'm', 'P'): ('this', d, [p[i] + q[i] for i in range(d)]), ('operator-=', 'm', 'P'): ('this', d, [p[i] - q[i] for i in range(d)]),
        ('operator*=', 'm', 'r'): ('this', d, [p[i] * r for i in range(d)]), ('operator/=', 'm', 'r'): ('this', d, [p[i] / r for i in range(d)]),
        ('operator*', 'f', 'rP'): ('value', d, [r * q[i] for i in range(d)]), ('operator*', 'f', 'Pr'): ('value', d, [q[i] * r for i in range(d)]), ('operator/', 'f', 'Pr'): ('value', d, [q[i] / r for i in range(d)]),
        ('operator*', 'f', 'PP'): ('number', dot(q, p)), ('operator+', 'f', 'PP'): ('value', d, [q[i] + p[i] for i in range(d)]), ('operator-', 'f', 'PP'): ('value', d, [q[i] - p[i] for i in range(d)]),
        ('operator-', 'f', 'P'): ('value', d, [-q[i] for i in range(d)]),
        ('operator^', 'f', 'PP'): ('value', d, [z] if d == 1 else [q[0] * p[1] - p[0] * q[1], z] if d == 2 else
                                   [q[1] * p[2] - q[2] * p[1], q[2] * p[0] - q[0] * p[2], q[0] * p[1] - q[1] * p[0]]),
        ('L22', 'f', 'P'): ('number', dot(q, q)), ('norm', 'f', 'P'): ('number', V(('call', 'sqrt', alg.key(dot(q, q))))),
    }
    return T.get((name, 'ctor' if name == 'Point' else 'm' if f_member(s) else 'f', s[1:]))


def f_member(s): return s[0] == 'm'


def one(ck, w, f):
    name = f['qn'].split('::')[-1]
    member = f['qn'].startswith(PT + '::')
    s = sig(f)
    if '?' in s or f['kind'] == 'dtor': return
    label = '%s(%s)' % (name, ', '.join(p['t'] for p in f['params']))
    bad, und, n = None, False, 0
    if name == 'operator[]':
        for d in (1, 2, 3):
            for i in range(d):
                h = w.heap(d)
                r = h.call(f, P, {f['params'][0]['n']: C(i)})
                n += 1
                if r is None or r[0] != 'addr': und = True
                elif mk(r[1]) != mk(('elem', ('fld', P, X), C(i))): bad = 'component %d of %d is %s' % (i, d, short(r))
        ck.ob('the components of points%s are those asked for' % (' (const)' if f.get('const') else ''), False if bad else None if und else True, at(f), bad or '', 'index:%s' % bool(f.get('const')))
        return
    if want(name, ('m' if member else 'f') + s, 3) is None: return
    # what sets the dimension is tried on points of every dimension
    resets = (name, s) in (('set', 'mP'), ('set', 'mna'), ('set', 'mrr'), ('set', 'mrrr'), ('operator=', 'mP'), ('set', 'P'), ('set', 'na'), ('set', 'rr'), ('set', 'rrr'), ('operator=', 'P'))
    for d, d0 in [(d, d0) for d in (1, 2, 3) for d0 in (1, 2, 3) if d == d0 or resets]:
        ws = want(name, ('m' if member else 'f') + s, d)
        h = w.heap(d0 if f['kind'] not in ('ctor', 'copyctor', 'movector') else None)
        ps = {}
        pts, nums = ['q', 'p'], ['r', 'r2', 'r3']
        for p, k in zip(f['params'], s):
            if k == 'P':
                nm = pts.pop(0)
                ps[p['n']] = value(nm, d)
            elif k == 'r': ps[p['n']] = ('sym', nums.pop(0))
            elif k == 'n': ps[p['n']] = C(d)
            else:
                ps[p['n']] = ('addr', ('elem', ('sym', 'A'), C(0)))
                h.m[('sym', 'A')] = lst(tuple(('sym', 'a%d' % i) for i in range(3)))
        r = h.call(f, P if member else None, ps)
        n += 1
        what = 'in %d dimensions' % d + (' where there were %d' % d0 if d0 != d else '')
        if h.pc != TRUE: und = True; continue
        if ws[0] == 'number':
            v = r if r is not None and r[0] != 'addr' else None
            if v is None or v[0] == 'ite': und = True
            elif not same(v, ws[1]): bad = bad or '%s: %s' % (what, short(v))
            continue
        got = w.state(h, P) if ws[0] == 'this' else w.val(h.I, r)
        if got is None: und = True; continue
        if got[0] != ws[1]: bad = bad or '%s: the result has dimension %s' % (what, got[0])
        elif len(got[1]) != ws[1]: und = True
        else:
            for i, (g, x) in enumerate(zip(got[1], ws[2])):
                if g[0] == 'ite': und = True
                elif not same(g, x): bad = bad or '%s: component %d is %s' % (what, i, short(g))
        if ws[0] == 'this' and name.startswith('operator') and (r is None or mk(r) not in (mk(('addr', ('deref', P))), P)): bad = bad or '%s: does not give the point itself' % what
    ck.ob('%s follows vector algebra' % label, False if bad else None if und or not n else True, at(f), bad or '', label)
