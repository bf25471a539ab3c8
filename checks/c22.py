"""C22: a simple mesh is the grid it was asked for."""
from .meshes import *
from . import alg
from .c08 import same, text, close
from fractions import Fraction

MS = 'Jali::Mesh_simple'
RULE = ('The constructors of Mesh_simple, the caches of Mesh they fill and every query are evaluated for boxes of several numbers of cells in each direction and for lists of points on a line, with free corners and '
        'coordinates: nodes, cells and faces correspond one to one to those of the grid, and every adjacency, direction, coordinate, type and count, and areas, volumes and normals, are those of the grid; '
        'after a node is moved only what hangs on it changes.')
SIZES = [(11, 1, 1), (1, 10, 1), (1, 2, 9), (1, 1, 1), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 2, 2)]
MORE = [(3, 3, 3), (4, 2, 3), (1, 1, 5)]
EXO = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
EXOF = [(1, 0), (0, 1), (1, 1), (0, 0), (2, 0), (2, 1)]      # (direction, side) of the faces of a hexahedron in the Exodus order


def overrides(F, cls):
    """hooks that send calls of virtual functions to the class the object has"""
    by = {}
    for f in F.funcs.values():
        if f['qn'].rsplit('::', 1)[0] == cls and f['kind'] != 'dtor':
            for o in f.get('overrides') or []: by.setdefault(o, f)

    def h(I, st, e):
        f = by.get(e.get('usr'))
        if f is None: return None
        r = I.inline(f, objterm(I, e, st), I.argvals(e, st, f), st, e)
        return ('void',) if r is None else r
    return {M + f['name']: h for f in by.values()}, by


class Simple:
    """a simple mesh, built"""

    def __init__(self, F, ctor, params, geometry=False, oracle=None, tiles=False, hooks=None):
        self.F = F
        more = hooks or {}
        hooks, self.by = overrides(F, MS)
        hooks.update(more)
        if not tiles: hooks[M + 'build_tiles'] = lambda I, st, e: ('void',)
        if not geometry: hooks[M + 'update_geometric_quantities'] = lambda I, st, e: ('void',)
        self.h = h = Heap(F, hooks=hooks, depth=30, unroll=400)
        self.ctor, h.recurse, h.oracle = ctor, 2, oracle
        h.call(ctor, MESH, params)
        self.built = h.pc

    def find(self, name, n, targs=None):
        """the function a call of that name on this object reaches"""
        fs = [f for f in self.F.by_qn.get(MS + '::' + name, []) + [self.by.get(f['usr'], f) for f in self.F.by_qn.get(M + name, [])] if targs is None or f.get('targs') == targs]
        fs = [f for f in fs if f.get('body') is not None and len(f['params']) == n] or fs
        return fs[0] if fs else None

    def q(self, f, *args, targs=None, keep=False):
        if isinstance(f, str): f = self.find(f, len(args), targs)
        if f is None: return None
        ps, os, before = {}, [], {}
        for p, a in zip(f['params'], args):
            if a is None:
                l = mk(('out', p['n']))
                ps[p['n']] = ('addr', l)
                os.append(l)
                if 'vector' in p['t']: before[l] = lst_of([77, 78, 79])
            else: ps[p['n']] = C(a) if isinstance(a, int) else a
        h = self.h if keep else self.h.copy()
        h.m.update(before)
        r = h.call(f, MESH, ps)
        self.I, self.f = h.I, f
        self.dead = h.I.final.pc == FALSE
        self.last = [h.I.final.m.get(l, before.get(l, ('addr', l))) for l in os]
        if os: return self.last
        if r is not None and r[0] == 'addr': r = h.I.read(h.I.final, r[1])
        return r


class Look:
    """obligations by what they are about"""

    def __init__(self, ck, tag): self.ck, self.tag, self.n, self.bad, self.und, self.at = ck, tag, {}, {}, {}, {}

    def see(self, what, got, want, who='', f=None):
        self.n[what] = self.n.get(what, 0) + 1
        if f: self.at[what] = f
        if got is None: self.und.setdefault(what, who); return False
        if got is False or got != want:
            self.bad.setdefault(what, '%s%s' % ('for %s ' % who if who != '' else '', 'it writes outside its list' if got is False else 'it is %s and not %s' % (got, want)))
            return False
        return True

    def done(self):
        for k in sorted(self.n):
            self.ck.count('queries', self.n[k])
            f = self.at.get(k)
            self.ck.ob('%s, %s' % (k, self.tag), False if k in self.bad else None if k in self.und else True, at(f) if f else '', self.bad.get(k, ''), key=k)


def check():
    ck = Check('C22', RULE)
    F = ck.load('mesh', 'simple', 'geometry')
    ck.bounds()
    terms.EXPAND[0] = 2
    ctors = F.by_qn[MS + '::Mesh_simple']
    c3 = [f for f in ctors if any(p['n'] == 'nz' for p in f['params']) or len([p for p in f['params'] if p['t'] == 'double']) == 6]
    c1 = [f for f in ctors if f['params'] and 'vector<double' in f['params'][0]['t']]
    ck.need(len(c3), 1, 'constructor of a box'); ck.need(len(c1), 1, 'constructor on a line')
    jobs = [('box', c3[0], n) for n in SIZES + (MORE if ck.thorough else [])] + [('line', c1[0], n) for n in (1, 2, 3, 4, 12)] + [('box without faces', c3[0], (2, 1, 2)), ('geometry', c3[0], (2, 1, 1)), ('geometry on a line', c1[0], 3)]
    ck.each(jobs, lambda sub, j: one(sub, F, *j), lambda j: '%s of %s cells' % (j[0], j[2]))
    refused(ck, F, [f for f in ctors if f not in (c3[0], c1[0]) and f['kind'] == 'ctor'])
    return ck.finish()


def refused(ck, F, fs):
    for f in fs:
        hooks, by = overrides(F, MS)
        I = Interp(F, max_depth=20)
        I.hooks.update(hooks)
        I.run(f, this=MESH, params={})
        ck.ob('a simple mesh that cannot be made is refused, %s' % ', '.join(p['n'] for p in f['params'][:3]), I.final.pc == FALSE, at(f), 'the constructor returns', key='refused')


class Num:
    """numbers at placements of the free coordinates"""

    def __init__(self, envs): self.envs = envs

    def num(self, t, env):
        if t is not None and t[0] == 'typed': t = t[2]
        if t is None: raise alg.Undecided('nothing')
        return alg.value(t, env)

    def point(self, I, t, env):
        if t is None: raise alg.Undecided('nothing')
        if t[0] == 'typed': t = t[2]
        if t[0] == 'addr': t = I.read(I.final, t[1]) if t[1] in I.final.m else t
        if t is None: raise alg.Undecided('nothing')
        if t[0] == 'addr': n, x = [I.read(I.final, mk(('fld', t, a))) for a in (D, X)]
        else: n, x = I.fieldof(t, D), I.fieldof(t, X)
        return tuple(alg.value(index(x, C(i)), env) for i in range(int(alg.value(n, env))))


def attempt(g):
    try: return g()
    except (alg.Undecided, KeyError, TypeError, ZeroDivisionError, AttributeError): return None


def one(ck, F, what, ctor, n):
    box = what[:3] == 'box' or what == 'geometry'
    L = Look(ck, '%s of %s cells' % (what, 'x'.join(map(str, n)) if box else n))
    geo = what[:8] == 'geometry'
    ps = {}
    names = [p['n'] for p in ctor['params']]
    flags = {p['n']: p for p in ctor['params']}
    for p in names:
        if p.startswith('request_') or p.endswith('_requested'): ps[p] = FALSE
        elif p.startswith('num_'): ps[p] = C(0)
    if what != 'box without faces': ps['request_faces'] = TRUE
    gm = mk(('new', 77, 'JaliGeometry::GeometricModel'))
    pn = {p['n']: p['t'] for p in ctor['params']}
    for p, t in pn.items():
        if 'GeometricModel' in t: ps[p] = gm if geo else C(0)
    gt = F.enum('JaliGeometry::Geom_type')
    for p, t in pn.items():
        if 'Geom_type' in t: ps[p] = C(gt['CARTESIAN'])
    if box:
        corner = [mk(('sym', s)) for s in ('x0', 'y0', 'z0', 'x1', 'y1', 'z1')]
        for p, v in zip([p['n'] for p in ctor['params'] if p['t'] == 'double'], corner): ps[p] = v
        for p, v in zip([p['n'] for p in ctor['params'] if p['t'] == 'int'], n): ps[p] = C(v)
        envs = [dict(zip(corner, v)) for v in ([Fraction(v) for v in (0, 0, 0, 1, 1, 1)], [Fraction(v) for v in (-3, Fraction(1, 2), 2, 7, 5, 11)])]
        N = n
        xyz = lambda env, g: tuple(env[corner[i]] + (env[corner[i + 3]] - env[corner[i]]) * g[i] / Fraction(n[i]) for i in range(3))
        dim = 3
    else:
        xs = [mk(('sym', 'p%d' % i)) for i in range(n + 1)]
        ps[names[0]] = lst(tuple(xs))
        envs = [{x: Fraction(i) for i, x in enumerate(xs)}, {x: Fraction(i * i + 3 * i - 5, 2) for i, x in enumerate(xs)}]
        N = (n,)
        xyz = lambda env, g: (env[xs[g[0]]],)
        dim = 1
    if geo:
        def oracle(c):
            try: return alg.holds(c, envs[1])
            except (alg.Undecided, TypeError, ZeroDivisionError): return None
        w = Simple(F, ctor, ps, True, oracle)
        shapes(L, w, Num(envs[1:]), N, dim, xyz, gm, ps)
    else:
        w = Simple(F, ctor, ps)
        grid(L, w, Num(envs), N, dim, xyz, ps, what)
    L.done()


def cells(N): return [g for g in __import__('itertools').product(*[range(k) for k in N])]
def points(N): return [g for g in __import__('itertools').product(*[range(k + 1) for k in N])]
def up(g, d): return g[:d] + (g[d] + 1,) + g[d + 1:]
def vary(g, o): return tuple(a + b for a, b in zip(g, o))


def faces_of(N):
    """(direction, lowest grid point)"""
    return [(d, g) for d in range(len(N)) for g in __import__('itertools').product(*[range(k + 1 if i == d else k) for i, k in enumerate(N)])]


def corners(f, dim):
    d, g = f
    o = [()]
    for i in range(dim): o = [x + (b,) for x in o for b in ((0,) if i == d else (0, 1))]
    return [vary(g, x) for x in o]


def ring_of(f):
    d, g = f
    a, b = [i for i in range(3) if i != d]
    e = lambda i: tuple(int(j == i) for j in range(3))
    return [g, vary(g, e(a)), vary(vary(g, e(a)), e(b)), vary(g, e(b))]


def nodes_by_place(L, w, V, N, dim, xyz, count):
    """node -> grid point, or None"""
    place = [{xyz(env, g): g for g in points(N)} for env in V.envs]
    at_ = {}
    for i in range(count):
        gs = []
        for f in [f for f in F_over(w, 'node_get_coordinates')]:
            t = f['params'][1]['t']
            if ('array' in t and dim != 3) or ('double' in t and 'array' not in t and dim != 1): continue
            r = w.q(f, i, None)
            for k, env in enumerate(V.envs):
                if 'Point' in t: x = attempt(lambda: V.point(w.I, r[0], env))
                elif 'array' in t: x = attempt(lambda: tuple(alg.value(index(r[0], C(j)), env) for j in range(3)))
                else: x = attempt(lambda: (V.num(r[0], env),))
                if x is None: L.see('coordinates of nodes', None, 0, i, f); return None
                g = place[k].get(x)
                if g is None: L.see('coordinates of nodes', text(x), 'a point of the grid', i, f); return None
                gs.append(g)
            L.see('coordinates of nodes', len(set(gs)), 1, i, f)
        if not gs: return None
        at_[i] = gs[0]
    L.see('there is one node at each point of the grid', sorted(at_.values()), sorted(points(N)))
    return at_ if len(set(at_.values())) == len(points(N)) else None


def F_over(w, name): return [f for f in w.F.by_qn.get(MS + '::' + name, []) if f.get('body') is not None]


def grid(L, w, V, N, dim, xyz, ps, what):
    F = w.F
    et, ek = F.enum('Jali::Entity_type'), F.enum('Jali::Entity_kind')
    if not L.see('a mesh is made', w.built != FALSE, True, '', w.ctor): return
    fs_ = 'without' not in what
    CN, PN, FN = cells(N), points(N), faces_of(N)
    want = {'NODE': len(PN), 'CELL': len(CN), 'FACE': len(FN) if fs_ else 0, 'EDGE': 0}
    for k, n in want.items():
        for t in ('ALL', 'PARALLEL_OWNED', 'PARALLEL_GHOST'):
            r = w.q('num_entities', C(ek[k]), C(et[t]))
            L.see('number of entities', num(r), 0 if t == 'PARALLEL_GHOST' else n, '%s %s' % (k, t), w.f)
            fn = k.lower() + 's'
            r = w.q(fn, targs=[targ(t)])
            x = r
            L.see('ids of entities', nums(x), [] if t == 'PARALLEL_GHOST' else list(range(n)), '%s %s' % (k, t), w.f)
        for i in range(n):
            r = w.q('entity_get_type', C(ek[k]), i)
            if r is not None: L.see('type of entities', num(r), et['PARALLEL_OWNED'], '%s %d' % (k, i), w.f)
            r = w.q('GID', i, C(ek[k]))
            L.see('global ids', num(r), i, '%s %d' % (k, i), w.f)
    ct = F.enum('Jali::Cell_type')
    if dim == 3:
        for c in range(len(CN)):
            r = w.q('cell_get_type', c)
            L.see('cell types', num(r), ct['HEX'], c, w.f)
    for nm in ('space_dimension', 'manifold_dimension'):
        r = w.q(nm)
        L.see('dimensions', num(r), dim, '', w.f)
    pos = nodes_by_place(L, w, V, N, dim, xyz, len(PN))
    if pos is None: return
    # cells
    cell = {}
    exo = EXO if dim == 3 else [(0,), (1,)]
    for c in range(len(CN)):
        r = w.q('cell_get_nodes', c, None)
        g = nums(r[0])
        if g is None: L.see('nodes of cells', None, 0, c, w.f); return
        if g is False or any(x not in pos for x in g): L.see('nodes of cells', g, 'nodes', c, w.f); return
        if not g: L.see('nodes of cells', g, 'the corners of a cell', c, w.f); return
        o = pos[g[0]]
        if not L.see('nodes of cells', [pos[x] for x in g], [vary(o, e) for e in exo], c, w.f): return
        cell[c] = o
    if not L.see('there is one cell in each box of the grid', sorted(cell.values()), sorted(CN)): return
    # faces
    face = {}
    key = {frozenset(corners(f, dim)): f for f in FN}
    turn = {}
    for i in range(len(FN)):
        r = w.q('face_get_nodes', i, None)
        g = nums(r[0])
        if g is None: L.see('nodes of faces', None, 0, i, w.f); return
        if g is False or any(x not in pos for x in g) or frozenset(pos[x] for x in g) not in key or len(g) != len(set(g)):
            L.see('nodes of faces', g, 'the corners of a face of the grid', i, w.f); return
        face[i] = key[frozenset(pos[x] for x in g)]
        if dim == 3:
            p = [pos[x] for x in g]
            a, b = [tuple(x - y for x, y in zip(p[k], p[0])) for k in (1, 3)]
            L.see('nodes of faces', sum(abs(x - y) for x, y in zip(p[0], p[2])), 2, i, w.f)
            nv = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
            turn[i] = nv[face[i][0]]
        else: turn[i] = 1
    if not L.see('there is one face at each place of the grid', sorted(face.values()), sorted(FN)): return
    fid = {v: k for k, v in face.items()}
    cid = {v: k for k, v in cell.items()}
    nid = {v: k for k, v in pos.items()}
    # faces of cells
    cf = {}
    for c, o in cell.items():
        cf[c] = {fid[(d, up(o, d) if s else o)]: (1 if s else -1) * turn[fid[(d, up(o, d) if s else o)]] for d in range(dim) for s in (0, 1)}
    for c, o in cell.items():
        if not fs_: break
        for ordered in (FALSE, TRUE):
            for nm in ('cell_get_faces_and_dirs', ) + (('cell_get_faces_and_dirs_internal',) if ordered == FALSE else ()):
                r = w.q(nm, c, None, None, ordered)
                a, b = nums(r[0]), nums(r[1])
                got = None if a is None or b is None else False if a is False or b is False else sorted(zip(a, b)) if len(a) == len(b) else (a, b)
                L.see('faces of cells and their directions', got, sorted(cf[c].items()), c, w.f)
                if dim == 3 and ordered == TRUE and got: L.see('faces of cells in standard order', a, [fid[(d, up(o, d) if s else o)] for d, s in EXOF], c, w.f)
        r = w.q('cell_get_faces', c, None, FALSE)
        if r is not None: L.see('faces of cells', nums(r[0]) and sorted(nums(r[0])), sorted(cf[c]), c, w.f)
    types = [('ALL', 1), ('PARALLEL_OWNED', 1), ('PARALLEL_GHOST', 0), ('BOUNDARY_GHOST', 0)]
    fc = {f: sorted(c for c in cell if f in cf[c]) for f in face}
    nc = {i: sorted(c for c, o in cell.items() if any(vary(o, e) == g for e in exo)) for i, g in pos.items()}
    nf = {i: sorted(f for f in face if g in corners(face[f], dim)) for i, g in pos.items()}

    def lists(label, nm, args, want, order=False):
        r = w.q(nm, *args, None)
        g = nums(r[0]) if r else None
        if w.dead: g = 'an error'
        elif g and not order: g = sorted(g)
        L.see(label, g, want, args[0], w.f)
    for t, on in types:
        T = C(et[t])
        for f in face:
            if fs_: lists('cells at faces', 'face_get_cells', (f, T), fc[f] if on else [])
            lists('cells at faces', 'face_get_cells_internal', (f, T), fc[f] if on else [])
        for i in pos:
            lists('cells at nodes', 'node_get_cells', (i, T), nc[i] if on else [])
            lists('faces at nodes', 'node_get_faces', (i, T), nf[i] if on else [])
            for c in nc[i]: lists('faces of a cell at a node', 'node_get_cell_faces', (i, c, T), sorted(set(nf[i]) & set(cf[c])) if on else [])
        for c in cell:
            r = w.q('cell_get_faces_and_dirs_internal', c, None, None, FALSE)
            fs = nums(r[0]) or []
            lists('neighbors of cells across faces, in the order of the faces', 'cell_get_face_adj_cells', (c, T), [x for f in fs for x in fc.get(f, []) if x != c] if on else [], order=True)
            lists('neighbors of cells across nodes', 'cell_get_node_adj_cells', (c, T), sorted({x for i in nc if c in nc[i] for x in nc[i]} - {c}) if on else [])
    coords(L, w, V, cell, face, pos, xyz, dim, {})
    # labeled sets: there are none
    r = w.q('get_labeled_set_entities', mk(('sym', 'region')), C(ek['CELL']), None, None)
    for x in r or []: L.see('labeled sets', nums(x), [], '', w.f)
    # a node moves
    for f in F_over(w, 'node_set_coordinates'):
        i = len(pos) // 2
        nw = [mk(('sym', 'm%d' % k)) for k in range(dim)]
        env2 = [dict(e, **{}) for e in V.envs]
        for e in env2: e.update({x: Fraction(100 + 7 * k) for k, x in enumerate(nw)})
        h = w.h
        w.h = h.copy()
        if 'Point' in f['params'][1]['t']: a = ('obj', ('sym', 'moved'), ((D, C(dim)), (X, lst(tuple(nw + [C(0)] * (3 - dim))))))
        else:
            l = mk(('out', 'where'))
            w.h.m[l] = lst(tuple(nw))
            a = ('addr', ('elem', l, C(0)))
        w.q(f, i, a, keep=True)
        if 'Point' in f['params'][1]['t'] or True:
            coords(L, w, Num(env2), cell, face, pos, xyz, dim, {pos[i]: tuple(env2[0][x] for x in nw)}, ' after a node moved', f)
        w.h = h


def coords(L, w, V, cell, face, pos, xyz, dim, moved, tag='', fn=None):
    nid = {g: i for i, g in pos.items()}
    X_ = lambda env, g: moved.get(g) or xyz(env, g)
    pf = next((f for f in F_over(w, 'node_get_coordinates') if 'Point' in f['params'][1]['t']), None)
    if moved:
        for i, g in pos.items():
            r = w.q(pf, i, None)
            I = w.I
            for env in V.envs: L.see('coordinates of nodes' + tag, attempt(lambda: V.point(I, r[0], env)), X_(env, g), i, fn)
    for nm, tab, gn in (('cell_get_coordinates', cell, 'cell_get_nodes'), ('face_get_coordinates', face, 'face_get_nodes')):
        for c in tab:
            ns = nums(w.q(gn, c, None)[0])
            r = w.q(nm, c, None)
            I = w.I
            for env in V.envs:
                got = attempt(lambda: [V.point(I, x, env) for x in alg.items(r[0], env)])
                L.see('coordinates of cells and faces' + tag, got, [X_(env, pos[k]) for k in ns], '%s %d' % (nm, c), w.f if not moved else fn)


def shapes(L, w, V, N, dim, xyz, gm, ps):
    """geometry, model and tile requests of the mesh that is made"""
    env = V.envs[0]
    r = w.q('geometric_model')
    L.see('geometric model', None if r is None else r == gm, True, '', w.f)
    F = w.F
    CN, FN = cells(N), faces_of(N)
    pos = nodes_by_place(L, w, V, N, dim, xyz, len(points(N)))
    if pos is None: return
    for c in range(len(CN)):
        ns = nums(w.q('cell_get_nodes', c, None)[0])
        if not ns or any(x not in pos for x in ns): continue
        o = min(pos[x] for x in ns)
        lo, hi = xyz(env, o), xyz(env, tuple(a + 1 for a in o))
        vol = 1
        for a, b in zip(lo, hi): vol *= b - a
        for rec in (FALSE, TRUE):
            r = w.q('cell_volume', c, rec)
            g = attempt(lambda: V.num(r, env))
            L.see('volumes of cells', None if g is None else close(g, vol) or text(g), True, c, w.f)
            r = w.q('cell_centroid', c, rec)
            g = attempt(lambda: V.point(w.I, r, env))
            L.see('centroids of cells', None if g is None else same(list(g), [(a + b) / 2 for a, b in zip(lo, hi)]) or text(g), True, c, w.f)
        a, b = w.q('cell_get_faces_and_dirs', c, None, None, FALSE)
        for f, d in zip(nums(a) or [], nums(b) or []):
            p = [pos.get(x) for x in nums(w.q('face_get_nodes', f, None)[0]) or []]
            if not p or None in p: continue
            k = next((k for k in range(dim) if all(x[k] == p[0][k] for x in p)), None)
            if k is None: continue
            A = 1
            for i in range(dim):
                if i != k: A *= hi[i] - lo[i]
            out = 1 if p[0][k] > o[k] else -1
            r = w.q('face_area', f, FALSE)
            g = attempt(lambda: V.num(r, env))
            L.see('areas of faces', None if g is None else close(g, A) or text(g), True, f, w.f)
            r = w.q(w.F.fn(M + 'face_normal'), f, FALSE, c, C(0))
            g = attempt(lambda: V.point(w.I, r, env))
            L.see('normals of faces out of cells', None if g is None else same(list(g), [out * A if i == k else 0 for i in range(dim)]) or text(g), True, '%d, %d' % (f, c), w.f)
