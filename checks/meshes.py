"""Small abstract meshes: an explicit topology behind the framework's primitives, evaluated under the code of Jali::Mesh."""
from .objs import *
from jv.facts import Broken
from jv import terms
from . import c25

MESH = mk(('new', 901, 'Jali::Mesh'))
M = 'Jali::Mesh::'
PT = c25.PT
D, X = c25.D, c25.X
DIR_ORDER = {'cell_get_faces_and_dirs': True, 'face_get_edges_and_dirs': True}


def fld(n, o=MESH): return mk(('fld', o, M + n))


class Topo:
    """cells given by their faces, each a list of nodes that runs so that the face looks outwards (in 2D: a segment run counterclockwise)"""

    def __init__(self, name, dim, cells, ctypes, ntypes=None, flip=lambda i: i % 2, eflip=lambda i: i % 3 == 0, coords=None, sdim=None, geom='CARTESIAN', numnodes=None):
        self.name, self.dim, self.sdim, self.geom = name, dim, sdim or dim, geom
        self.ctypes = ctypes
        nn = numnodes or 1 + max(n for c in cells for f in c for n in f)
        self.nn = nn
        self.faces, self.cfaces, self.cdirs, self.fcells = [], [], [], []
        self.edges, self.fedges, self.fedirs, self.cedges, self.cnodes = [], [], [], [], []
        byset = {}
        for c, fs in enumerate(cells):
            ids, dirs = [], []
            ns = []
            for j, f in enumerate(fs):
                f = tuple(f)
                k = frozenset(f)
                if k not in byset:
                    i = byset[k] = len(self.faces)
                    if dim == 1: g, d = f, (-1 if j == 0 else 1)
                    elif flip(i): g, d = f[::-1], -1
                    else: g, d = f, 1
                    self.faces.append(g); self.fcells.append([])
                else:
                    i = byset[k]
                    g = self.faces[i]
                    if dim == 1: d = -1 if j == 0 else 1
                    elif dim == 2: d = 1 if g == f else -1
                    else:
                        r = [g[a:] + g[:a] for a in range(len(g))]
                        d = 1 if f in r else -1
                        if d == -1: assert f[::-1] in r, (f, g)
                    assert i not in [x for l, m in zip(self.cfaces, self.cdirs) for x, y in zip(l, m) if y == d], (f, g)
                ids.append(i); dirs.append(d)
                self.fcells[i].append(c)
                for n in f:
                    if n not in ns: ns.append(n)
            self.cfaces.append(ids); self.cdirs.append(dirs)
            if dim == 3 and len(ns) == 4: ns = list(fs[0])[::-1] + [n for n in ns if n not in fs[0]]     # the standard order of a tetrahedron
            self.cnodes.append(ns)
        be = {}
        for i, g in enumerate(self.faces):
            ids, dirs = [], []
            if dim == 1: self.fedges.append([g[0]]); self.fedirs.append([1]); continue
            ps = [(g[0], g[1])] if dim == 2 else [(g[a], g[(a + 1) % len(g)]) for a in range(len(g))]
            for p in ps:
                k = frozenset(p)
                if k not in be:
                    e = be[k] = len(self.edges)
                    self.edges.append(p if dim == 2 or not eflip(e) else p[::-1])
                e = be[k]
                ids.append(e); dirs.append(1 if self.edges[e] == p else -1)
            self.fedges.append(ids); self.fedirs.append(dirs)
        if dim == 1:
            self.edges = [(n, n) for n in range(nn)]
            self.cedges = [list(x) for x in self.cnodes]
        else:
            for c in range(len(cells)):
                es = []
                for f in self.cfaces[c]:
                    for e in self.fedges[f]:
                        if e not in es: es.append(e)
                self.cedges.append(es)
        if dim == 2: self.cedges = [list(x) for x in self.cfaces]
        # nodes of 2D cells run counterclockwise
        if dim == 2: self.cnodes = [[f[0] for f in fs] for fs in cells]
        own = lambda cs: 'O' if any(ctypes[c] == 'O' for c in cs) else 'G'
        self.ftypes = [own(cs) for cs in self.fcells]
        self.ntypes = [own([c for c in range(len(cells)) if n in self.cnodes[c]]) for n in range(nn)]
        self.etypes = [own([c for c in range(len(cells)) if e in self.cedges[c]]) for e in range(len(self.edges))]
        self.coords = coords
        self.nc, self.nf, self.ne = len(cells), len(self.faces), len(self.edges)

    def ids(self, k, t='A'):
        l = {'cell': self.ctypes, 'face': self.ftypes, 'edge': self.etypes, 'node': self.ntypes}[k]
        if t != 'A': return [i for i, x in enumerate(l) if x == t]
        return [i for y in 'OGB' for i, x in enumerate(l) if x == y]

    def sides(self):
        """(cell, face, edge, (node 0, node 1)) of every side in the order of cells, faces and edges"""
        out = []
        for c in self.ids('cell'):
            for f, d in zip(self.cfaces[c], self.cdirs[c]):
                if self.dim == 1: out.append((c, f, self.faces[f][0], (self.faces[f][0],) * 2)); continue
                for e, ed in zip(self.fedges[f], self.fedirs[f]):
                    a, b = self.edges[e]
                    if self.dim == 2: w = (a, b) if d == 1 else (b, a)
                    else: w = (b, a) if d * ed == 1 else (a, b)
                    out.append((c, f, e, w))
        return out


def ring(c): return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def prism(a, b):
    """bottom and top rings, the bottom counterclockwise seen from above"""
    n = len(a)
    return [tuple(a[::-1])] + [(a[i], a[(i + 1) % n], b[(i + 1) % n], b[i]) for i in range(n)] + [tuple(b)]


def pyramid(a, t):
    n = len(a)
    return [tuple(a[::-1])] + [(a[i], a[(i + 1) % n], t) for i in range(n)]


def large():
    """cells with many faces and nodes, faces with many nodes, nodes and edges with many cells; no owned cell"""
    T = []
    r = [(4, 0), (3, 3), (0, 4), (-3, 3), (-4, 0), (-2, -4), (2, -4)]
    T.append(Topo('seven triangles around a node and a heptagon', 2, [ring([0, i + 1, i % 7 + 2 if i < 6 else 1]) for i in range(7)] + [ring([2, 1, 8, 9, 10, 11, 12])], 'OOOOOGGG',
                  coords=[(0, 0)] + r + [(7, -1), (10, 1), (10, 4), (7, 6), (5, 5)]))
    r = [(4, 0, 2), (2, 3, 2), (-2, 3, 1), (-4, 0, 2), (-2, -3, 3), (2, -3, 2)]
    T.append(Topo('six tetrahedra around an edge', 3, [pyramid([0, 2 + i, 2 + (i + 1) % 6], 1) for i in range(6)], 'OOOOGG', coords=[(0, 0, 0), (0, 0, 6)] + r))
    r = [(4, 0, 0), (2, 3, 0), (-2, 3, 0), (-4, 0, 0), (-2, -3, 0), (2, -3, 0)]
    T.append(Topo('hexagonal pyramids on both sides of a face', 3, [pyramid([0, 1, 2, 3, 4, 5], 6), pyramid([5, 4, 3, 2, 1, 0], 7)], 'OG', coords=r + [(1, 0, 4), (0, 1, -5)]))
    T.append(Topo('only ghost cells', 2, [ring([0, 1, 2]), ring([1, 3, 2])], 'GG', coords=[(0, 0), (4, 0), (1, 5), (6, 6)]))
    return T


def topologies():
    """name -> mesh"""
    T = []
    T.append(Topo('3 cells on a line', 1, [[(0,), (1,)], [(1,), (2,)], [(2,), (3,)]], 'OOG', coords=[(1,), (2,), (4,), (9,)]))
    T.append(Topo('3 spherical shells', 1, [[(0,), (1,)], [(1,), (2,)], [(2,), (3,)]], 'OOG', coords=[(1,), (2,), (4,), (9,)], geom='SPHERICAL'))
    # quad, two triangles, a pentagon
    T.append(Topo('quadrilateral, triangles and pentagon', 2, [ring([0, 1, 4, 3]), ring([1, 2, 4]), ring([2, 5, 4]), ring([3, 4, 5, 7, 6])], 'OOGG',
                  coords=[(0, 0), (4, 0), (9, 1), (1, 5), (6, 4), (10, 6), (0, 9), (7, 11)]))
    T.append(Topo('triangles with a cell behind the boundary', 2, [ring([0, 1, 2]), ring([1, 3, 2]), ring([0, 2, 4])], 'OGB', flip=lambda i: i % 2 == 0,
                  coords=[(0, 0), (4, 0), (1, 5), (6, 6), (-5, 4)]))
    # triangular prism below, tetrahedron on top, pyramid on a side
    p = prism([0, 1, 2], [3, 4, 5])
    t = pyramid([3, 4, 5], 6)
    q = pyramid([1, 2, 5, 4], 7)
    T.append(Topo('prism, tetrahedron and pyramid', 3, [p, t, q], 'OOG', coords=[(0, 0, 0), (4, 0, 0), (0, 3, 0), (0, 0, 2), (4, 0, 2), (0, 3, 2), (1, 1, 5), (6, 7, 1)]))
    T.append(Topo('tetrahedra', 3, [pyramid([0, 1, 2], 3), pyramid([0, 2, 1], 4)], 'OG', flip=lambda i: i % 2 == 0, eflip=lambda i: i % 2 == 1,
                  coords=[(0, 0, 0), (3, 0, 0), (0, 4, 1), (1, 1, 5), (1, 2, -4)]))
    return T


class World:
    """a mesh whose framework knows the topology; cached data start out unset"""

    def __init__(self, F, topo, coords='known', want='fesw c'.replace(' ', ''), geometry=True, depth=10, cls=None):
        self.F, self.T = F, topo
        T = topo
        self.ek, self.et = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
        et = self.et
        self.ty = ty = {'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}
        self.coords = dict(enumerate(T.coords))     # node -> exact coordinates
        self.sym = {n: [mk(('sym', 'x%d_%d' % (n, i))) for i in range(T.sdim)] for n in range(T.nn)}
        W = lambda I, e, i, st, v: I.write(st, I.ptr_loc(argterm(I, e, i, st)), v, e)

        def lists(n, f):
            """primitive giving lists: f(id, flag) -> list per out-parameter"""
            def h(I, st, e):
                x = argterm(I, e, 0, st)
                if not is_num(x): return None
                r = f(x[1], *[argterm(I, e, i, st) for i in range(1 + n, len(e['a']))])
                if r is None: raise Broken('%s is asked about entity %s, which does not exist' % (e.get('fn'), x[1]))
                for i, v in enumerate(r):
                    p = argterm(I, e, 1 + i, st)
                    if p == C(0) or p == ('null',): continue
                    W(I, e, 1 + i, st, v if isinstance(v, tuple) else lst_of(v))
                return ('void',)
            return h

        def inr(t, i): return 0 <= i < len(t)

        def at(t, e, x):
            if not inr(t, x[1]): raise Broken('%s is asked about entity %s, which does not exist' % (e.get('fn'), x[1]))
            return t[x[1]]

        def faces(c, o=FALSE):
            if not inr(T.cfaces, c): return None
            # the framework's order when asked for an ordered list is another one
            a, b = T.cfaces[c], T.cdirs[c]
            if o in (TRUE, C(1)) : a, b = a[1:] + a[:1], b[1:] + b[:1]
            return a, b

        def fcells(I, st, e):
            f, t = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if not (is_num(f) and is_num(t)): return None
            W(I, e, 2, st, lst_of([c for c in at(T.fcells, e, f) if t[1] == et['ALL'] or ty[T.ctypes[c]] == t[1]]))
            return ('void',)

        def fedges(f, o=TRUE):
            if not inr(T.fedges, f): return None
            a, b = T.fedges[f], T.fedirs[f]
            if o in (FALSE, C(0)): a, b = a[1:] + a[:1], b[1:] + b[:1]
            return a, b

        def enodes(I, st, e):
            x = argterm(I, e, 0, st)
            if not is_num(x): return None
            for i in (0, 1): W(I, e, 1 + i, st, C(at(T.edges, e, x)[i]))
            return ('void',)

        def cedges(c): return (T.cedges[c],) if inr(T.cedges, c) else None
        def c2edges(c): return (T.cfaces[c], T.cdirs[c]) if inr(T.cfaces, c) else None
        def cnodes(c): return (T.cnodes[c],) if inr(T.cnodes, c) else None
        def fnodes(f): return (T.faces[f],) if inr(T.faces, f) else None

        def ncells(I, st, e):
            x, t = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if not (is_num(x) and is_num(t)): return None
            W(I, e, 2, st, lst_of([c for c in range(T.nc) if x[1] in T.cnodes[c] and (t[1] == et['ALL'] or ty[T.ctypes[c]] == t[1])]))
            return ('void',)

        def ncoord(I, st, e):
            x = argterm(I, e, 0, st)
            if not is_num(x): return None
            at(range(T.nn), e, x)
            W(I, e, 1, st, self.point(x[1]))
            return ('void',)

        def many(tab):
            def h(I, st, e):
                x = argterm(I, e, 0, st)
                if not is_num(x): return None
                W(I, e, 1, st, lst(tuple(self.point(n) for n in at(tab, e, x))))
                return ('void',)
            return h
        self.hooks = {M + 'cell_get_faces_and_dirs_internal': lists(2, faces), M + 'face_get_cells_internal': fcells,
                      M + 'face_get_edges_and_dirs_internal': lists(2, fedges), M + 'cell_get_edges_internal': lists(1, cedges),
                      M + 'cell_2D_get_edges_and_dirs_internal': lists(2, c2edges), M + 'edge_get_nodes_internal': enodes,
                      M + 'cell_get_nodes': lists(1, cnodes), M + 'face_get_nodes': lists(1, fnodes), M + 'node_get_cells': ncells,
                      M + 'node_get_coordinates': ncoord, M + 'face_get_coordinates': many(T.faces), M + 'cell_get_coordinates': many(T.cnodes)}
        if not geometry: self.hooks[M + 'update_geometric_quantities'] = lambda I, st, e: ('void',)
        self.h = h = Heap(F, hooks=self.hooks, depth=depth, unroll=200)
        h.recurse = 2
        m = h.m
        m[fld('manifold_dim_')], m[fld('space_dim_')] = C(T.dim), C(T.sdim)
        gt = F.enum('JaliGeometry::Geom_type')
        m[fld('geomtype')] = C(gt[T.geom])
        for w, n in zip('feswc', ('faces', 'edges', 'sides', 'wedges', 'corners')): m[fld(n + '_requested')] = TRUE if w in want else FALSE
        for f in F.cls('Jali::Mesh')['fields']:
            n, t = f['n'], f['t']
            if n.endswith('_cached') or n.endswith('_precomputed'): m[fld(n)] = FALSE
            elif t.startswith('std::vector<') and fld(n) not in m: m[fld(n)] = EMPTY
        m[fld('cellids_all_')] = lst_of(T.ids('cell'))
        for k, l in (('cell', 'OGB'), ('face', 'OG'), ('edge', 'OG'), ('node', 'OG')):
            if k == 'edge' and 'e' not in want or k == 'face' and 'f' not in want: continue
            for t in l: m[fld('%sids_%s_' % (k, {'O': 'owned', 'G': 'ghost', 'B': 'boundary_ghost'}[t]))] = lst_of(T.ids(k, t))
            m[fld('%sids_all_' % k)] = lst_of(T.ids(k))

    def point(self, n):
        d = self.T.sdim
        return ('obj', ('sym', 'node_%d' % n), ((D, C(d)), (X, lst(tuple(self.sym[n] + [C(0)] * (3 - d))))))

    def build(self):
        f = self.F.fn(M + 'cache_extra_variables')
        self.h.call(f, MESH, {})

    def q(self, name, *args, outs=0, targs=None):
        """query: the values written to the out-parameters, or the result"""
        if isinstance(name, dict): f = name
        else:
            fs = [f for f in self.F.by_qn.get(M + name, []) if targs is None or f.get('targs') == targs]
            fs = [f for f in fs if len(f['params']) == len(args) + outs] or fs
            f = fs[0]
        ps, os, before = {}, [], {}
        for p, a in zip(f['params'], list(args) + [None] * outs):
            if a is None:
                l = mk(('out', p['n']))
                ps[p['n']] = ('addr', l)
                os.append(l)
                if 'vector' in p['t']: before[l] = lst_of([77, 78, 79])
            else: ps[p['n']] = C(a) if isinstance(a, int) else a
        h = self.h.copy()
        h.m.update(before)
        r = h.call(f, MESH, ps)
        self.I, self.res = h.I, r
        self.last = [h.I.final.m.get(l, before.get(l)) for l in os]
        if not os:
            if r is not None and r[0] == 'addr': r = h.I.read(h.I.final, r[1])
            return r
        return self.last


def num(t):
    if t is not None and t[0] == 'typed': t = t[2]
    return t[1] if t is not None and is_num(t) else kept(t)


def kept(t):
    """an answer that depends on what an earlier call left in a static variable is wrong whatever it is"""
    if t is not None and contains(mk(t), lambda x: x[0] == 'static' and str(x[1]).startswith('kept:')): return 'what an earlier call left'
    return None


def nums(t):
    if t is None: return None
    r = ints(t)
    return r if r is not None else kept(t)


class Queries:
    """what the queries of a built mesh give, compared with what they should give"""

    def __init__(self, ck, w, tag):
        self.ck, self.w, self.tag = ck, w, tag
        self.bad, self.und, self.n = {}, set(), {}

    def seen(self, what, got, want, args, asset=False):
        """got: list of values (numbers, lists of numbers); None: not known"""
        self.n[what] = self.n.get(what, 0) + 1
        if got is None or any(g is None for g in got): self.und.add(what); return
        if any(g is False for g in got): self.bad.setdefault(what, 'writes outside its list for %s' % (args,)); return
        if asset: got, want = [sorted(g) if isinstance(g, list) else g for g in got], [sorted(x) if isinstance(x, list) else x for x in want]
        if list(got) != list(want): self.bad.setdefault(what, 'for %s it gives %s and not %s' % (args, show_(got), show_(want)))

    def lists(self, what, name, args, want, asset=False, outs=None, sel=None):
        r = self.w.q(name, *args, outs=outs or len(want))
        g = [nums(x) for x in r]
        if self.w.I.final.pc == FALSE: return self.bad.setdefault(what, 'for %s it does not return' % (args,))
        self.seen(what, g, want, tuple(a for a in args if isinstance(a, int)), asset)

    def one(self, what, name, args, want):
        r = num(self.w.q(name, *args))
        if r is None and self.w.I.final.pc == FALSE: return self.bad.setdefault(what, 'for %s it does not return' % (args,))
        self.seen(what, [r], [want], tuple(a for a in args if isinstance(a, int)))

    def done(self, place):
        for k in sorted(self.n, key=str):
            self.ck.count('queries', self.n[k])
            f = place(k)
            self.ck.ob('%s, %s' % (k, self.tag), False if k in self.bad else None if k in self.und else True, at(f) if f else '', self.bad.get(k, ''), key=k.split(',')[0].split(' ')[0])


def show_(g): return ', '.join(str(x) for x in g)
