"""C05: copies and assignments of the library's value types carry every field."""
from .common import *

RULE = ('Every user-written copy/move constructor and copy/move assignment is evaluated symbolically. For every non-static field of the class and its bases the value '
        'left in the new object must be the value of the same field of the source (points: dimension and each used coordinate, for dimension 1, 2 and 3; '
        'state vector data: a fresh block with the source\'s contents on copy, the same block on assignment); the source must be left unchanged.')

POINT = 'JaliGeometry::Point'


def fields_of(F, t):
    """(class qualified name, field) of a class and its bases"""
    c = F.classes.get(t)
    out = []
    for b in c['bases']: out += fields_of(F, b)
    return out + [(c, f) for f in c['fields']]


def plain_type(t):
    t = t.strip()
    if t.startswith('const '): t = t[6:]
    return t


def point_leaves(F, t, base, out):
    """locations of the points inside an object at pointer term `base`"""
    if t == POINT:
        out.append(base)
        return
    for c, f in fields_of(F, t):
        if plain_type(f['t']) == POINT: out.append(('addr', mk(('fld', base, c['qn'] + '::' + f['n']))))


def scratch(F, c, f):
    """a field that no member function but constructors and const queries mentions"""
    for g in F.funcs.values():
        if f['n'] not in mentions(g): continue
        if g.get('cls') == c['qn'] and (g.get('const') or g['kind'] in ('ctor', 'copyctor', 'movector', 'copyassign', 'moveassign', 'dtor')): continue
        if g.get('clst') == c['t'] and (g.get('const') or g['kind'] in ('ctor', 'copyctor', 'movector', 'copyassign', 'moveassign', 'dtor')): continue
        if any(n.get('k') == 'mem' and n.get('f') == f['n'] and n.get('c') == c['qn'] for n in nodes([g.get('body'), g.get('inits')])): return False
    return True


def check():
    ck = Check('C05', RULE)
    F = ck.load('geometry', 'mesh', 'state', 'state_w')
    n = 0
    for g in sorted(F.funcs.values(), key=lambda f: (f['file'], f['line'], f['usr'])):
        if g['kind'] not in ('copyctor', 'movector', 'copyassign', 'moveassign') or g.get('body') is None: continue
        cls = g.get('clst')
        if cls not in F.classes: continue
        n += 1
        one(ck, F, g, cls)
    ck.need(n, 10, 'user-written copy operations')
    ck.count('copy_operations', n)
    return ck.finish()


def one(ck, F, g, cls):
    src = ('addr', ('pref', g['params'][0]['n'] or 'arg0'))
    pts = []
    point_leaves(F, cls, src, pts)
    haspts = bool(pts)
    for d in (1, 2, 3) if haspts else (None,):
        asm = {}
        for p in pts: asm[mk(('fld', p, POINT + '::d'))] = C(d)
        I = Interp(F, max_depth=8)
        I.unroll = 4
        I.assume.update(asm)
        try: I.run(g)
        except RecursionError: raise AnalysisError('cannot evaluate ' + g['qn'])
        fin = I.final
        copy = g['kind'] in ('copyctor', 'movector')
        st0 = St({src[1]: ('sym', src[1][1])})

        def final(loc): return I.read(fin, mk(loc))

        def source(loc): return I.read(st0, mk(loc))
        if fin.pc != TRUE:
            ck.ob('%s %s returns on every path' % (cls, g['kind']), False, at(g), 'it can leave by another way')
        for c, f in fields_of(F, cls):
            q = c['qn'] + '::' + f['n']
            mine, his = ('fld', THIS, q), ('fld', src, q)
            what = '%s of %s: %s' % ({'copyctor': 'copy', 'movector': 'move', 'copyassign': 'assignment', 'moveassign': 'move assignment'}[g['kind']], cls, f['n'])
            t = plain_type(f['t'])
            if cls == POINT and f['n'] == 'xyz' or t == POINT:
                a, b = (mine, his) if t != POINT else (('fld', ('addr', mine), POINT + '::xyz'), ('fld', ('addr', his), POINT + '::xyz'))
                ok = True
                if t == POINT:
                    ok = val(final(('fld', ('addr', mine), POINT + '::d'))) == C(d) or final(mine) == source(his)
                for i in range(d):
                    ok = ok and (same(index(final(a), C(i)), index(source(b), C(i))) or final(mine) == source(his))
                ck.ob(what + ' (dimension %d)' % d, ok, at(g), 'the coordinates are not those of the source', key=what)
                continue
            v, w = final(mine), source(his)
            if 'shared_ptr<std::vector' in t:
                if copy:
                    vs = v
                    ok = vs[0] == 'new' and same(final(('deref', vs)), source(('deref', w)))
                    ck.ob(what, ok, at(g), 'the copy does not own a block with the source\'s contents', key=what)
                else: ck.ob(what, v == w, at(g), 'the data block is not the source\'s', key=what)
                continue
            ok = same(val(unlock(v)), val(unlock(w)))
            if is_ref(f['t']):
                ok = refsame(v, w)
            if not ok and v == EMPTY and scratch(F, c, f): ok = True
            ck.ob(what, ok, at(g), 'has %s' % short(v), key=what)
        bad = [k for k in fin.m if k[0] == 'fld' and under(k, src) and source(k) != fin.m[k]]
        ck.ob('%s of %s leaves the source alone' % (g['kind'], cls), not bad, at(g), 'changes %s' % (short(bad[0]) if bad else ''))


def under(loc, p):
    while isinstance(loc, tuple) and loc and loc[0] in ('fld', 'elem', 'addr'):
        if loc == p: return True
        loc = loc[1]
    return False


def val(t): return t[2] if t[0] == 'typed' else t


def unlock(t):
    if t[0] == 'call' and t[1] == 'lock': return t[2][0]
    return t


def refsame(v, w):
    """a reference member: bound to the object the source's is bound to"""
    if v == w: return True
    return v[0] == 'addr' and v[1] == ('deref', w)
