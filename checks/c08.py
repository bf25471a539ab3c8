"""C08: volumes, areas, centroids and normals of the entities of a mesh."""
import math
from fractions import Fraction
from .meshes import *
from . import alg

RULE = ('Mesh::cache_extra_variables, Mesh::update_geometric_quantities and the geometric queries are evaluated over small abstract meshes with free node coordinates; what they give, as functions of the coordinates, '
        'is compared with the integral formulas by identity testing at several placements of the nodes: cells, faces, edges, sides, wedges and corners, outward normals on both sides of a face, normals and points of '
        'sides and wedges, boundaries of corners, cached and recomputed, and again after the nodes have moved.')
MAPS = [None, lambda d: [[2, 0, 0], [0, 3, 0], [0, 0, 1]], lambda d: [[1, Fraction(1, 2), 0], [Fraction(1, 3), 2, 0], [0, 1, 3]] if d == 3 else [[1, Fraction(1, 2), 0], [Fraction(1, 3), 2, 0], [0, 0, 1]]]


def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(*v): return [sum(x) for x in zip(*v)]
def sc(k, a): return [k * x for x in a]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def c2(a, b): return a[0] * b[1] - a[1] * b[0]
def nrm(a): return math.sqrt(dot(a, a))
def mean(ps): return sc(Fraction(1, len(ps)), add(*ps))


class Exact:
    """the geometry of a mesh at given coordinates"""

    def __init__(self, T, X, cen=None):
        self.T, self.X = T, X
        d, sd = T.dim, T.sdim
        self.sph = T.geom == 'SPHERICAL'
        self.fvec, self.fcen, self.farea = [], [], []
        for f in T.faces:
            p = [X[n] for n in f]
            if d == 1:
                a = 4 * math.pi * float(p[0][0]) ** 2 if self.sph else 1
                self.fvec.append([a]); self.fcen.append(p[0]); self.farea.append(a)
            elif d == 2:
                e = sub(p[1], p[0])
                self.fvec.append([e[1], -e[0]] if sd == 2 else None); self.fcen.append(mean(p)); self.farea.append(nrm(e))
            else:
                n, c, A = poly3(p)
                self.fvec.append(n); self.fcen.append(c); self.farea.append(A)
        self.cvol, self.ccen = [], []
        for c in range(T.nc):
            p = [X[n] for n in T.cnodes[c]]
            if d == 1:
                a, b = p[0][0], p[1][0]
                self.cvol.append(4 * math.pi / 3 * float(b ** 3 - a ** 3) if self.sph else abs(b - a))
                self.ccen.append(None if self.sph else mean(p))
            elif d == 2:
                if sd == 2: A, C_ = poly2(p)
                else: n, C_, A = poly3(p)
                self.cvol.append(A); self.ccen.append(C_)
            else:
                V, M1 = 0, [0, 0, 0]
                for f, dr in zip(T.cfaces[c], T.cdirs[c]):
                    q = [X[n] for n in T.faces[f]][::dr]
                    for i in range(1, len(q) - 1):
                        v = dot(cross(q[0], q[i]), q[i + 1])
                        V += v; M1 = add(M1, sc(v, add(q[0], q[i], q[i + 1])))
                self.cvol.append(V / 6); self.ccen.append(sc(Fraction(1) / (4 * V), M1))
        if cen: self.ccen = [cen(c) if x is None else x for c, x in enumerate(self.ccen)]

    def side(self, c, f, e, ns):
        """(volume, outward normal, normal of the middle facet, points)"""
        X, T = self.X, self.T
        a, b, cc = X[ns[0]], X[ns[1]], self.ccen[c]
        if T.dim == 1:
            if self.sph: v = 4 * math.pi / 3 * abs(float(cc[0]) ** 3 - float(a[0]) ** 3)
            else: v = abs(cc[0] - a[0])
            return v, sc(1 if a[0] > cc[0] else -1, self.fvec[f]), None, [a, cc]
        ec = mean([a, b])
        if T.dim == 2:
            o, m = sub(b, a), sub(cc, ec)
            return c2(sub(b, a), sub(cc, a)) / 2, [o[1], -o[0]], [m[1], -m[0]], [a, b, cc]
        fc = self.fcen[f]
        n = cross(sub(b, a), sub(fc, a))
        return dot(n, sub(cc, a)) / 6, sc(Fraction(-1, 2), n), sc(Fraction(1, 2), cross(sub(fc, ec), sub(cc, ec))), [a, b, fc, cc]


def poly2(p):
    A, M1 = 0, [0, 0]
    for i in range(len(p)):
        a, b = p[i], p[(i + 1) % len(p)]
        v = c2(a, b)
        A += v; M1 = add(M1, sc(v, add(a, b)))
    return A / Fraction(2), sc(1 / (3 * Fraction(A)), M1)


def poly3(p):
    """normal, centroid and area of a flat polygon"""
    n, M1 = [0, 0, 0], None
    for i in range(1, len(p) - 1): n = add(n, cross(sub(p[i], p[0]), sub(p[i + 1], p[0])))
    w = 0
    M1 = [0, 0, 0]
    for i in range(1, len(p) - 1):
        v = dot(cross(sub(p[i], p[0]), sub(p[i + 1], p[0])), n)
        w += v; M1 = add(M1, sc(v, add(p[0], p[i], p[i + 1])))
    return sc(Fraction(1, 2), n), sc(Fraction(1) / (3 * Fraction(w)), M1), nrm(n) / 2


def placements(T):
    """node coordinates: given, stretched, sheared (flat faces stay flat)"""
    out = []
    for k, m in enumerate(MAPS):
        if T.dim == 1 and k == 2: continue
        X = {}
        for n, x in enumerate(T.coords):
            x = [Fraction(v) for v in x]
            if m:
                A = m(T.sdim)
                x = [sum(A[i][j] * x[j] for j in range(T.sdim)) + (i + 1 if T.geom != 'SPHERICAL' else 0) for i in range(T.sdim)]
            X[n] = x
        out.append(X)
    return out


def meshes_():
    return topologies() + [
        Topo('two cells of a surface', 2, [ring([0, 1, 4, 3]), ring([1, 2, 4])], 'OG', sdim=3, coords=[(0, 0, 0), (4, 0, 0), (8, 0, 3), (1, 5, 0), (4, 4, 0)])]


def check():
    ck = Check('C08', RULE)
    F = ck.load('mesh', 'geometry')
    ck.bounds()
    terms.EXPAND[0] = 2
    jobs = [(t, k, moved) for t in meshes_() for k in range(len(placements(t))) for moved in (False, True) if not moved or t.name[:5] not in ('prism', 'tetra') or k == 1]
    if not ck.thorough: jobs = [j for j in jobs if j[0].name[:5] != 'prism' or j[1] == 2 and not j[2] or j[1] == 1 and j[2]]
    jobs += [(t, k, False) for t in large() for k in range(len(placements(t))) if k == 1 or t.dim < 3 and k == 2]
    jobs.sort(key=lambda j: j[0].dim < 3)
    ck.each(jobs, lambda sub, j: placed(sub, F, *j), lambda j: '%s, placement %d' % (j[0].name, j[1]))
    return ck.finish()


def placed(ck, F, t, k, moved):
    want = 'fe' if t.sdim != t.dim else 'feswc'
    ps = placements(t)
    X = ps[k]
    R = Verdict(ck, t.name + (', nodes moved' if moved else ''))
    w = World(F, t, want=want)
    V = Values(w, 'x', ps[k - 1] if moved else X, None)
    w.build()
    if moved:
        # the nodes move
        w.sym = {n: [mk(('sym', 'y%d_%d' % (n, i))) for i in range(t.sdim)] for n in range(t.nn)}
        V = Values(w, 'y', X, ps[k - 1])
        w.h.call(F.fn(M + 'update_geometric_quantities'), MESH, {})
    one_mesh(w, V, R, want)
    R.done(F)


class Values:
    """query results as numbers at the placements"""

    def __init__(self, w, tag, X, other):
        self.w, self.tag = w, tag
        env = {}
        for n in X:
            for j, v in enumerate(X[n]):
                env[mk(('sym', '%s%d_%d' % (tag, n, j)))] = v
                if tag == 'y': env[mk(('sym', 'x%d_%d' % (n, j)))] = other[n][j]
        self.envs, self.X = [env], [X]

        def oracle(c):
            try: return alg.holds(c, env)
            except (alg.Undecided, TypeError, ZeroDivisionError): return None
        w.h.oracle = oracle

    def num(self, t, env):
        if t is None: raise alg.Undecided('nothing')
        return alg.value(t, env)

    def point(self, t, env, d=None):
        if t is None: raise alg.Undecided('no point')
        if t[0] == 'typed': t = t[2]
        I = self.w.I
        if t[0] == 'addr': t = I.read(I.final, t[1])
        if t[0] == 'ite': return self.point(t[2] if alg.holds(t[1], env) else t[3], env, d)
        n, x = I.fieldof(t, D), I.fieldof(t, X)
        n = alg.value(n, env)
        return [alg.value(index(x, C(i)), env) for i in range(int(n))]


def close(a, b): return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def same(a, b):
    if isinstance(b, (list, tuple)): return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is not None and not isinstance(a, (list, tuple)) and a == a and close(a, b)


def text(v):
    if isinstance(v, (list, tuple)): return '(%s)' % ', '.join(text(x) for x in v)
    return '%.6g' % float(v)


class Verdict:
    def __init__(self, ck, name):
        self.ck, self.name = ck, name
        self.bad, self.und, self.n = {}, {}, {}

    def see(self, what, fn, args, want, read):
        """fn called once; read(term, env, k) -> value; want(k) -> value, at each placement k"""
        r = self.w.q(fn, *args)
        outs = self.w.last
        for k, env in enumerate(self.V.envs):
            self.n[what] = self.n.get(what, 0) + 1
            try:
                g = read(r if not outs else outs, env)
            except (alg.Undecided, KeyError, TypeError, ZeroDivisionError) as e:
                self.und.setdefault(what, '%s %s' % (type(e).__name__, str(e)[:120])); continue
            x = want(k)
            ok = x(g) if callable(x) else same(g, x)
            if ok is not True: self.bad.setdefault(what, 'for %s it is %s%s' % (', '.join(str(show(a)) if isinstance(a, tuple) else str(a) for a in args if a is not None), text(g), ' and not ' + text(x) if not callable(x) else ': ' + str(ok)))

    def done(self, F):
        for k in sorted(self.n):
            self.ck.count('identities', self.n[k])
            fn = k.split(',')[0].split(' ')[0]
            f = (F.by_qn.get(M + fn) or [None])[0]
            self.ck.ob('%s, %s' % (k, self.name), False if k in self.bad else None if k in self.und else True, at(f) if f else '', self.bad.get(k, ''), key=k)
            if k in self.und and __import__('os').environ.get('JV_DEBUG'): print('UND', k, self.name, self.und[k])


def one_mesh(w, V, R, want):
    T, F = w.T, w.F
    R.w, R.V = w, V
    num = lambda t, env: V.num(t, env)
    pt = lambda t, env: V.point(t, env)

    def cen(k):
        def g(c):
            w.q('cell_centroid', c, FALSE)
            return V.point(w.q('cell_centroid', c, FALSE), V.envs[k])
        return g
    E = [Exact(T, X, cen(k)) for k, X in enumerate(V.X)]
    B = lambda c: T.ctypes[c] == 'B'
    zero = [0] * T.sdim
    flat = T.sdim == T.dim
    for rec in (FALSE, TRUE):
        s = ', recomputed' if rec == TRUE else ''
        for c in range(T.nc):
            if B(c) and rec == TRUE: continue
            R.see('cell_volume' + s, 'cell_volume', (c, rec), lambda k: 0 if B(c) else E[k].cvol[c], num)
            if not E[0].sph: R.see('cell_centroid' + s, 'cell_centroid', (c, rec), lambda k: zero if B(c) else E[k].ccen[c], pt)
        for f in range(T.nf):
            R.see('face_area' + s, 'face_area', (f, rec), lambda k: E[k].farea[f], num)
            R.see('face_centroid' + s, 'face_centroid', (f, rec), lambda k: E[k].fcen[f], pt)
            if not flat: continue
            o = lambda t, env: [V.point(w.res, env), alg.value(t[0], env)]
            R.see('face_normal' + s, 'face_normal', (f, rec, C(-1), None), lambda k: [E[k].fvec[f], 1], o)
            R.see('face_normal, nothing asked about its orientation' + s, 'face_normal', (f, rec, C(-1), C(0)), lambda k: E[k].fvec[f], pt)
            for c in T.fcells[f]:
                d = T.cdirs[c][T.cfaces[c].index(f)]
                R.see('face_normal, out of a cell' + s, 'face_normal', (f, rec, c, None), lambda k: [sc(d, E[k].fvec[f]), d], o)
        for e in range(T.ne):
            a, b = T.edges[e]
            v = lambda k: sub(V.X[k][b], V.X[k][a])
            R.see('edge_length' + s, 'edge_length', (e, rec), lambda k: nrm(v(k)), num)
            R.see('edge_vector' + s, 'edge_vector', (e, rec, C(-1), C(0)), v, pt)
            o = lambda t, env: [V.point(w.res, env), alg.value(t[0], env)]
            R.see('edge_vector, from its first node' + s, 'edge_vector', (e, rec, a, None), lambda k: [v(k), 1], o)
            if a != b: R.see('edge_vector, from its second node' + s, 'edge_vector', (e, rec, b, None), lambda k: [sc(-1, v(k)), -1], o)
            if rec == FALSE: R.see('edge_centroid', 'edge_centroid', (e,), lambda k: mean([V.X[k][a], V.X[k][b]]), pt)
    if 's' in want: sides(w, V, R, E, T)


def npts(V, l, env):
    return [V.point(x, env) for x in alg.items(l, env)]


def sides(w, V, R, E, T):
    num = lambda t, env: V.num(t, env)
    pt = lambda t, env: V.point(t, env)
    one = lambda n, *a: globals()['num_'](w.q(n, *a))
    pts = lambda t, env: npts(V, t[0], env)
    et = w.et
    corners = {}
    zero = [0] * T.sdim
    for c in range(T.nc):
        w.q('cell_get_sides', c, None)
        for s in nums(w.last[0]) or []:
            q = (one('side_get_cell', s), one('side_get_face', s), one('side_get_edge', s), (one('side_get_node', s, C(0)), one('side_get_node', s, C(1))))
            if None in q or None in q[3] or q not in T.sides(): continue     # C20's business
            B = T.ctypes[c] == 'B'
            X = lambda k, q=q: E[k].side(*q)
            two = [one('side_get_wedge', s, C(i)) for i in (0, 1)]
            for rec in (FALSE, TRUE):
                r = ', recomputed' if rec == TRUE else ''
                if B and rec == TRUE: continue
                R.see('side_volume' + r, 'side_volume', (s, rec), lambda k: 0 if B else X(k)[0], num)
                R.see('side_facet_normal' + r, 'side_facet_normal', (s, rec), lambda k: zero if B else X(k)[1], pt)
                for i, x in enumerate(two):
                    R.see('wedge_volume' + r, 'wedge_volume', (x, rec), lambda k: 0 if B else X(k)[0] / 2, num)
                    R.see('wedge_facet_normal, of the face' + r, 'wedge_facet_normal', (x, C(0), rec), lambda k: zero if B else sc(Fraction(1, 2), X(k)[1]), pt)
                    if T.dim > 1: R.see('wedge_facet_normal, between the wedges' + r, 'wedge_facet_normal', (x, C(1), rec), lambda k: zero if B else sc(-1 if i else 1, X(k)[2]), pt)
            if B: continue
            R.see('side_get_coordinates', 'side_get_coordinates', (s, None, FALSE), lambda k: X(k)[3], pts)
            R.see('side_get_coordinates, positive order', 'side_get_coordinates', (s, None, TRUE), lambda k: positive(X(k)[3]), pts)
            for i, x in enumerate(two):
                n = q[3][i]

                def W(k, X=X, i=i):
                    p = X(k)[3]
                    if T.dim == 1: return [p[0], p[1]]
                    ec = mean([p[0], p[1]])
                    return [p[i], ec] + p[2:]
                R.see('wedge_get_coordinates', 'wedge_get_coordinates', (x, None, FALSE), W, pts)
                R.see('wedge_get_coordinates, positive order', 'wedge_get_coordinates', (x, None, TRUE), lambda k: positive(W(k)), pts)
                corners.setdefault((c, n), []).append((s, q, i, W))
    for (c, n), ws in corners.items():
        k_ = one('cell_get_corner_at_node', c, n)
        if k_ is None or k_ < 0: continue
        vol = lambda k: sum(E[k].side(*q)[0] for s, q, i, W in ws) / 2
        for rec in (FALSE, TRUE): R.see('corner_volume' + (', recomputed' if rec == TRUE else ''), 'corner_volume', (k_, rec), vol, num)
        points = lambda k: uniq([p for s, q, i, W in ws for p in W(k)])

        def inorder(k):
            """the corners of it, once each, and turning the right way"""
            P, v = points(k), vol(k)

            def ok(g):
                if len(g) != len(P) or not all(any(same(a, b) for b in P) for a in g) or not all(any(same(a, b) for b in g) for a in P): return 'the points are %s' % text(P)
                if T.dim == 1 and not g[0][0] < g[1][0]: return 'not in increasing order'
                if T.dim == 2:
                    a = sum(c2(g[i], g[(i + 1) % len(g)]) for i in range(len(g))) / 2
                    if not close(a, v): return 'it encloses %s and the volume is %s' % (text(a), text(v))
                return True
            return ok
        R.see('corner_get_coordinates', 'corner_get_coordinates', (k_, None), inorder, pts)
        f = next((f for f in w.F.fns(M + 'corner_get_facetization') if 'array<int, %d>' % T.dim in f['params'][2]['t'] or 'array<Jali::Entity_ID, %d>' % T.dim in f['params'][2]['t'] or (', %d>' % T.dim) in f['params'][2]['t']), None)
        if f is None: continue

        def facets(k):
            P, v = points(k), vol(k)
            two_ = [(E[k].side(*q)) for s, q, i, W in ws]

            def ok(g):
                p, fs = g
                if len(p) != len(P) or not all(any(same(a, b) for b in P) for a in p): return 'the points are %s' % text(P)
                if any(not 0 <= x < len(p) for t in fs for x in t): return 'a facet has a point that is not there'
                if T.dim == 1: return True if len(fs) == 2 and {x[0] for x in fs} == {0, 1} else 'the facets are the two points'
                if T.dim == 2:
                    nb = [t for t in fs]
                    if len(nb) != 4 or sorted(x[0] for x in nb) != [0, 1, 2, 3] or sorted(x[1] for x in nb) != [0, 1, 2, 3]: return 'not a closed boundary'
                    a = sum(c2(p[t[0]], p[t[1]]) for t in nb) / 2
                    return True if close(a, v) else 'it encloses %s and the volume is %s' % (text(a), text(v))
                # closed: every edge once in each direction, but for those along the faces' and edges' centres that two facets meet at
                es = {}
                for t in fs:
                    for i in range(3):
                        e = (t[i], t[(i + 1) % 3])
                        es[e] = es.get(e, 0) + 1
                if any(es.get((b, a), 0) != m for (a, b), m in es.items()): return 'the facets do not close'
                a = sum(dot(cross(p[t[0]], p[t[1]]), p[t[2]]) for t in fs) / 6
                return True if close(a, v) else 'they enclose %s and the volume is %s' % (text(a), text(v))
            return ok

        def rd(t, env):
            fs = alg.items(t[1], env)
            return [npts(V, t[0], env), [[int(alg.value(index(x, C(i)), env)) for i in range(T.dim)] if not is_num(x) else [x[1]] * T.dim for x in map(bare, fs)]]
        R.see('corner_get_facetization', f, (k_, None, None), facets, rd)


def bare(x):
    while elems(x) is not None and len(elems(x)) == 1 and elems(elems(x)[0]) is not None: x = elems(x)[0]
    return x


def uniq(ps):
    out = []
    for p in ps:
        if not any(same(p, q) for q in out): out.append(p)
    return out


def positive(p):
    """the same points in the order that gives a positive volume (one fixed representative: compared through same_order)"""
    def ok(g):
        if len(g) != len(p) or not all(any(same(a, b) for b in p) for a in g) or not all(any(same(a, b) for b in g) for a in p): return 'the points are %s' % text(p)
        if len(p) == 2: v = g[1][0] - g[0][0]
        elif len(p) == 3: v = c2(sub(g[1], g[0]), sub(g[2], g[0]))
        else: v = dot(cross(sub(g[1], g[0]), sub(g[2], g[0])), sub(g[3], g[0]))
        return True if v > 0 else 'their volume is not positive'
    return ok


from .meshes import num as num_
