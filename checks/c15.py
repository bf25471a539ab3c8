"""C15: tiles cover the mesh and own each entity once."""
from .meshes import *
from . import alg
from .c22 import Look, Num, Simple, overrides, MS
from fractions import Fraction

RULE = ('make_meshtile, the constructor of MeshTile, the tables of master tiles of Mesh and every query of tiles are evaluated over small abstract meshes (mixed cells, owned, ghost and boundary ghost) for several '
        'partitions of the owned cells and numbers of halo layers; and the construction of simple meshes with tiles, partitioners included, for numbers of parts that do and do not divide the cells.')
TL = 'Jali::MeshTile::'
KIND = {'node': 'cnodes', 'face': 'cfaces', 'edge': 'cedges'}
PT = ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'ALL')


def partitions(own):
    """of the owned cells, in several orders"""
    if len(own) == 1: return [[own]]
    h = len(own) // 2
    return [[own], [own[:h], own[h:]], [own[h:][::-1], own[:h]], [[c] for c in own[::-1]], [own[1:], [], own[:1]]]


def check():
    ck = Check('C15', RULE)
    F = ck.load('mesh', 'simple', 'geometry')
    ck.bounds()
    terms.EXPAND[0] = 2
    mt = [f for f in F.by_qn.get('Jali::make_meshtile', []) if f.get('body')]
    ck.need(len(mt), 1, 'make_meshtile')
    T = [t for t in topologies() if t.geom == 'CARTESIAN']
    jobs = []
    for t in T:
        for i, p in enumerate(partitions(t.ids('cell', 'O'))):
            for layers in (0, 1, 2):
                if i > 1 and layers == 2 and not ck.thorough: continue
                jobs.append((t, p, layers, 'feswc' if i % 2 == 0 else 'fe', 'feswc' if (i + layers) % 2 == 0 else 'f' if i % 2 else 'fesw'))
    for w in ('', 's', 'w', 'c', 'e'): jobs.append((T[1], [[0], [1]], 1, 'feswc', w))
    line = Topo('6 cells on a line', 1, [[(i,), (i + 1,)] for i in range(6)], 'OOOOOG', coords=[(i * i,) for i in range(7)])
    big = [t for t in large() if t.ids('cell', 'O')]
    jobs += [(line, [[0], [1, 2, 3, 4]], 3, 'f', 'f'), (line, [[4], [0, 1, 2, 3]], 5, 'fe', 'f'), (line, [[c] for c in range(5)], 4, 'feswc', 'feswc')]
    jobs += [(t, p, 1, 'feswc', 'feswc') for t in big for p in partitions(t.ids('cell', 'O'))[1:3]]
    own9 = Topo('12 cells on a line', 1, [[(i,), (i + 1,)] for i in range(12)], 'O' * 10 + 'GG', coords=[(i * i,) for i in range(13)])
    jobs += [(own9, [[c] for c in range(10)], 1, 'f', 'f')]
    jobs = [('tiles',) + j for j in jobs] + [('parts', t, n, by) for t in ghosted() for n in (2, 3) for by in ('INDEX', 'METIS', 'BLOCK') if t.dim > 1 or by == 'INDEX'] + [('parts', ghosted()[0], 9, 'METIS'), ('parts', ghosted()[0], 9, 'INDEX')]
    ck.each(jobs, lambda sub, j: tiles(sub, F, mt[0], *j[1:]) if j[0] == 'tiles' else parted(sub, F, *j[1:]), lambda j: '%s, %s %s, %s' % (j[1].name, j[0], j[2], j[3]))
    ctors = F.by_qn[MS + '::Mesh_simple']
    c3 = [f for f in ctors if len([p for p in f['params'] if p['t'] == 'double']) == 6]
    c1 = [f for f in ctors if f['params'] and 'vector<double' in f['params'][0]['t']]
    ck.need(len(c3), 1, 'constructor of a box'); ck.need(len(c1), 1, 'constructor on a line')
    jobs = [(c3[0], n, parts, layers, 'BLOCK') for n, parts, layers in [((2, 2, 1), 2, 1), ((3, 1, 1), 3, 0), ((2, 1, 2), 4, 1), ((1, 2, 1), 1, 0), ((3, 4, 1), 10, 0)] + ([((4, 2, 1), 4, 1), ((3, 2, 2), 3, 2)] if ck.thorough else [])]
    for n, parts, layers in (((2, 2, 2), 2, 1), ((3, 1, 2), 4, 0), ((2, 1, 1), 3, 1), ((1, 3, 3), 1, 2), ((3, 3, 1), 9, 0)):
        for p in F.enum('Jali::Partitioner_type'):
            if p in ('INDEX', 'METIS', 'ZOLTAN_GRAPH', 'ZOLTAN_RCB'): jobs.append((c3[0], n, parts, layers, p))
    for n, parts, layers in ((4, 2, 1), (5, 3, 2), (2, 3, 0), (3, 1, 1)):
        for p in F.enum('Jali::Partitioner_type'):
            if p in ('INDEX', 'METIS'): jobs.append((c1[0], n, parts, layers, p))
    jobs += [(c3[0], (2, 1, 1), 0, 0, 'INDEX'), (c1[0], 2, 0, 0, 'METIS')]
    ck.each(jobs, lambda sub, j: grids(sub, F, *j), lambda j: 'simple mesh of %s cells in %d tiles with %d layers by %s' % j[1:])
    return ck.finish()


class Metis:
    """the partitioner of graphs: looks at the graph it is given and answers with parts of its own choosing"""

    def __init__(self, parts):
        self.parts, self.graph, self.part = parts, None, None
        self.hooks = {n: self.call for n in ('METIS_PartGraphRecursive', 'METIS_PartGraphKway')}

    def call(self, I, st, e):
        a = [argterm(I, e, i, st) for i in range(13)]
        at_ = lambda p, i=0: num(I.read(st, I.ptr_elem(p, C(i)) if i or p[0] != 'addr' else p[1]))
        n, np = at_(a[0]), at_(a[7])
        xs = [at_(a[2], i) for i in range(n + 1)]
        if np is None or None in xs: raise AnalysisError('the graph is not known')
        self.asked = np
        if self.graph is None: self.new = {x.d['ptr'] for x in I.events if x.kind == 'new' and x.d.get('arr')}

        def nbr(j):
            l = I.ptr_elem(a[3], C(j))
            t = I.read(st, l)
            return 'a value never set' if a[3] in self.new and mk(t) == mk(('idx', ('load', ('arr', a[3])), C(j))) else num(t)
        self.graph = [[nbr(j) for j in range(xs[i], xs[i + 1])] for i in range(n)]
        self.part = [(2 * i + 1) % np if i % 3 else i % np for i in range(n)]
        for i, x in enumerate(self.part): I.write(st, I.ptr_elem(a[12], C(i)), C(x), e)
        return C(1)

    def see(self, L, f, faces, own):
        if self.part is None: return
        L.see('the number of parts METIS is asked for', self.asked, self.parts, '', f)
        for c, g in enumerate(self.graph):
            L.see('the graph given to METIS', sorted(g, key=str) if None not in g else None, sorted([x for x in faces if x != c and set(faces[x]) & set(faces[c])], key=str), c, f)
        L.see('the cells given to METIS', len(self.graph), len(faces), '', f)
        for i, p in enumerate(own): L.see('the parts are those METIS gave', sorted(p), [c for c, x in enumerate(self.part) if x == i], i, f)


def grids(ck, F, ctor, n, parts, layers, by):
    box = not isinstance(n, int)
    L = Look(ck, 'simple mesh of %s cells in %d tiles with %d layers by %s' % (n, parts, layers, by))
    ps = {}
    for p in ctor['params']:
        if p['n'].startswith('request_'): ps[p['n']] = FALSE
        elif p['n'].startswith('num_'): ps[p['n']] = C(0)
        elif 'GeometricModel' in p['t']: ps[p['n']] = C(0)
        elif 'Geom_type' in p['t']: ps[p['n']] = C(F.enum('JaliGeometry::Geom_type')['CARTESIAN'])
        elif 'Partitioner_type' in p['t']: ps[p['n']] = C(F.enum('Jali::Partitioner_type')[by])
    ps['request_faces'] = TRUE
    for a, v in (('num_tiles', parts), ('num_ghost_layers_tile', layers)):
        a = [p['n'] for p in ctor['params'] if p['n'].startswith(a)]
        if not a: raise AnalysisError('no parameter for tiles')
        ps[a[0]] = C(v)
    oracle = None
    if box:
        corner = [mk(('sym', s)) for s in ('x0', 'y0', 'z0', 'x1', 'y1', 'z1')]
        for p, v in zip([p['n'] for p in ctor['params'] if p['t'] == 'double'], corner): ps[p] = v
        for p, v in zip([p['n'] for p in ctor['params'] if p['t'] == 'int'], n): ps[p] = C(v)
        env = dict(zip(corner, [Fraction(v) for v in (0, -1, 2, 2 * n[0], 4 * n[1] - 1, n[2] + 2)]))
        if by == 'BLOCK':
            for p, v in zip([p['n'] for p in ctor['params'] if p['t'] == 'double'], corner): ps[p] = C(int(env[v]))
    else:
        xs = [mk(('sym', 'p%d' % i)) for i in range(n + 1)]
        ps[ctor['params'][0]['n']] = lst(tuple(xs))
        env = {x: Fraction(i * i + 3 * i - 5, 2) for i, x in enumerate(xs)}
    def oracle(c):
        try: return alg.holds(c, env)
        except (alg.Undecided, TypeError, ZeroDivisionError): return None
    f = F.fn(M + 'get_partitioning')
    metis = Metis(parts)
    w = Simple(F, ctor, ps, by == 'BLOCK', oracle, tiles=True, hooks=metis.hooks)
    r = w.h.see(F.by_qn[M + 'tiles'][0], MESH)
    e = elems(r) if r is not None else None
    if e is None: raise AnalysisError('the tiles of the mesh are not known')
    tl = [tileloc(x) for x in e]
    L.see('the number of tiles', len(tl), parts, '', ctor)
    if not parts:
        q = TileQ(F, w.h)
        for k in ('node', 'face', 'edge', 'cell', 'side', 'wedge', 'corner'):
            r = q(MESH, 'master_tile_ID_of_' + k, 0, cls=M)
            L.see('master_tile_ID_of_%s without tiles' % k, num(r), -1, 0, q.f)
        return L.done()
    nc = num(w.q('num_cells', targs=[targ('ALL')]))
    if nc is None: raise AnalysisError('the number of cells is not known')
    of = {}
    for k in ('node', 'face'):
        of[k] = {}
        for c in range(nc):
            r = w.q('cell_get_%ss' % k, c, None) if k == 'node' else w.q('cell_get_faces', c, None, C(0))
            of[k][c] = nums(r[0])
            if of[k][c] in (None, False): raise AnalysisError('the %ss of a cell are not known' % k)
    q = TileQ(F, w.h)
    own = [nums(q(t, 'cells', targs=[targ(PT[0])])) for t in tl]
    if None in own or False in own: raise AnalysisError('the cells of the tiles are not known')
    metis.see(L, f, of['face'], own)
    parted = sorted(c for p in own for c in p)
    L.see('every cell is in exactly one part', parted, list(range(nc)), '', f)
    if parted != list(range(nc)): return L.done()
    if by == 'BLOCK':
        for i, p in enumerate(own):
            at_ = []
            for c in p:
                r = w.q([g for g in F.by_qn[MS + '::node_get_coordinates'] if 'Point' in g['params'][1]['t']][0], of['node'][c][0], None)
                at_.append(Num([env]).point(w.I, r[0], env))
            ranges = [{x[d] for x in at_} for d in range(3)]
            L.see('no block is empty', len(p) > 0, True, i, f)
            L.see('a block is a block', len(at_), len(ranges[0]) * len(ranges[1]) * len(ranges[2]), i, f)

    class T: pass
    T.cnodes, T.nc = of['node'], nc
    judge(ck, L, F, w.h, w, tl, own, 'f', 'f', dict(cells=lambda p: halo(T, p, layers), node=lambda c: of['node'][c], face=lambda c: of['face'][c]),
          {'node': 1 + max(x for y in of['node'].values() for x in y), 'face': 1 + max(x for y in of['face'].values() for x in y), 'edge': 0, 'cell': nc})
    L.done()


def tileloc(r):
    """the object a shared pointer holds"""
    for x in walk(r):
        if x[0] == 'new' and 'MeshTile' in str(x[2:]): return x
    return None


def tiles(ck, F, mt, T, parts, layers, want, req):
    et, ek = F.enum('Jali::Entity_type'), F.enum('Jali::Entity_kind')
    req = ''.join(x for x in req if x in want)
    w = World(F, T, geometry=False, want=want)
    w.build()
    h = w.h

    def adj(I, st, e):
        c, y = argterm(I, e, 0, st), argterm(I, e, 1, st)
        if not (is_num(c) and is_num(y)): return None
        I.write(st, I.ptr_loc(argterm(I, e, 2, st)), lst_of([x for x in range(T.nc) if x != c[1] and set(T.cnodes[x]) & set(T.cnodes[c[1]]) and y[1] in (et['ALL'], w.ty[T.ctypes[x]])]), e)
        return ('void',)
    h.hooks[M + 'cell_get_node_adj_cells'] = adj
    L = Look(ck, '%s in tiles %s with %d layers of halo, %s' % (T.name, parts, layers, req or 'nothing else'))
    m = h.m
    m[fld('tiles_initialized_')] = FALSE
    m[fld('meshtiles')] = EMPTY
    names = dict(zip('feswc', ('faces', 'edges', 'sides', 'wedges', 'corners')))
    tl = []
    for p in parts:
        cells = mk(('new', 3000 + len(tl), 'cells'))
        m[cells] = lst_of(p)
        ps = {mt['params'][0]['n']: ('REF', ('deref', MESH))}
        vals = [('REF', cells), C(layers)] + [TRUE if c in req else FALSE for c in 'feswc']
        for q, v in zip(mt['params'][1:], vals): ps[q['n']] = v
        r = h.call(mt, MESH, ps)
        o = tileloc(r) if r is not None else None
        if o is None: raise AnalysisError('no tile is made: %s' % (short(r) if r else r))
        tl.append(o)
    judge(ck, L, F, h, w, tl, parts, req, want, dict(
        cells=lambda p: halo(T, p, layers),
        node=lambda c: T.cnodes[c], face=lambda c: T.cfaces[c], edge=lambda c: T.cedges[c],
        side=lambda c: ints_of(w, 'cell_get_sides', c), wedge=lambda c: ints_of(w, 'cell_get_wedges', c), corner=lambda c: ints_of(w, 'cell_get_corners', c)),
        {'node': T.nn, 'face': T.nf if 'f' in want else 0, 'edge': T.ne if 'e' in want else 0, 'cell': T.nc})
    L.done()


def ghosted():
    """meshes with owned and ghost cells that have a regular grid of owned ones"""
    def grid(nx, ny, own):
        n = lambda i, j: i + (nx + 1) * j
        cs = [(i, j) for i in range(nx) for j in range(ny)]
        cs.sort(key=lambda c: not own(*c))
        return [ring([n(i, j), n(i + 1, j), n(i + 1, j + 1), n(i, j + 1)]) for i, j in cs], ''.join('O' if own(*c) else 'G' for c in cs), [(2 * i, 3 * j) for j in range(ny + 1) for i in range(nx + 1)]
    out = []
    for nx, ny, own in ((5, 4, lambda i, j: i < 4 and j > 0), (3, 3, lambda i, j: i > 0 and j < 2)):
        a, b, x = grid(nx, ny, own)
        out.append(Topo('%d by %d quadrilaterals, some of them ghosts' % (nx, ny), 2, a, b, coords=x))
    out.append(Topo('6 cells on a line', 1, [[(i,), (i + 1,)] for i in range(6)], 'OOOOGG', coords=[(i * i,) for i in range(7)]))
    return out


def parted(ck, F, T, parts, by):
    """the parts of a mesh with ghosts"""
    et = F.enum('Jali::Entity_type')
    metis = Metis(parts)
    w = World(F, T, want='fe', geometry=False)
    w.sym = {n: [C(v) for v in x] for n, x in enumerate(T.coords)}
    L = Look(ck, '%s in %d parts by %s' % (T.name, parts, by))

    def adj(I, st, e):
        c, y = argterm(I, e, 0, st), argterm(I, e, 1, st)
        if not (is_num(c) and is_num(y)): return None
        I.write(st, I.ptr_loc(argterm(I, e, 2, st)), lst_of([x for f in T.cfaces[c[1]] for x in T.fcells[f] if x != c[1] and y[1] in (et['ALL'], w.ty[T.ctypes[x]])]), e)
        return ('void',)
    def pt(v): return ('obj', ('sym', 'a point'), ((D, C(2)), (X, lst(tuple([C(x) for x in v] + [C(0)])))))

    def geo(f):
        def g(I, st, e):
            a = [argterm(I, e, i, st) for i in range(len(e['a']))]
            return f(*[x[1] if is_num(x) else None for x in a]) if is_num(a[0]) else None
        return g

    def mid(tab): return lambda i, *a: pt([Fraction(sum(T.coords[n][d] for n in tab[i]), len(tab[i])) for d in range(T.dim)])

    def normal(i, again=None, c=-1, *a):
        p, q = [T.coords[n] for n in T.faces[i]]
        s = T.cdirs[c][T.cfaces[c].index(i)] if c is not None and c >= 0 else 1
        return pt([s * (q[1] - p[1]), s * (p[0] - q[0])])
    w.h.hooks.update({M + 'cell_centroid': geo(mid(T.cnodes)), M + 'face_centroid': geo(mid(T.faces)), M + 'face_normal': geo(normal)})
    w.h.hooks[M + 'cell_get_face_adj_cells'] = adj
    w.h.hooks.update(metis.hooks)
    w.build()

    def oracle(c):
        try: return alg.holds(c, {})
        except (alg.Undecided, TypeError, ZeroDivisionError): return None
    w.h.oracle = oracle
    f = F.fn(M + 'get_partitioning')
    out = mk(('out', 'parts'))
    h = w.h.copy()
    h.m[out] = EMPTY
    h.call(f, MESH, dict(zip([p['n'] for p in f['params']], [C(parts), C(F.enum('Jali::Partitioner_type')[by]), ('addr', out)])))
    r = elems(h.I.final.m.get(out, EMPTY))
    own = None if r is None or h.pc != TRUE else [nums(x) for x in r]
    if own is None or None in own or False in own: raise AnalysisError('the parts are not known')
    cells = T.ids('cell', 'O')
    L.see('the number of parts', len(own), parts, '', f)
    L.see('every owned cell is in exactly one part, and no ghost', sorted(c for p in own for c in p), cells, '', f)
    if by == 'METIS':
        L.see('METIS is asked', metis.part is not None, True, '', f)
        metis.see(L, f, {c: T.cfaces[c] for c in cells}, own)
    if by == 'BLOCK':
        for i, p in enumerate(own):
            at_ = [T.coords[T.cnodes[c][0]] for c in p]
            L.see('no block is empty', len(p) > 0, True, i, f)
            L.see('a block is a block', len(at_), len({x[0] for x in at_}) * len({x[1] for x in at_}), i, f)
    L.done()


def ints_of(w, name, c):
    w.q(name, c, None)
    return nums(w.last[0])


def halo(T, p, layers):
    """cells that are within so many steps over shared nodes, the ones given left out"""
    s = set(p)
    for i in range(layers):
        ns = {n for c in s for n in T.cnodes[c]}
        s |= {c for c in range(T.nc) if ns & set(T.cnodes[c])}
    return s - set(p)


class TileQ:
    def __init__(self, F, h): self.F, self.h = F, h

    def __call__(self, this, name, *args, targs=None, cls=TL):
        fs = [f for f in self.F.by_qn.get(cls + name, []) if (targs is None or f.get('targs') == targs) and f.get('body') is not None]
        if not fs: raise AnalysisError('%s%s is not there' % (cls, name))
        self.f = f = fs[0]
        h = self.h.copy()
        ps = {}
        out = None
        for p, a in zip(f['params'], args):
            if a is None:
                out = mk(('out', p['n']))
                ps[p['n']] = ('addr', out)
                h.m[out] = lst_of([77, 78, 79])
            else: ps[p['n']] = C(a) if isinstance(a, int) else a
        r = self.raw = h.call(f, this, ps)
        self.dead = h.I.final.pc == FALSE
        if out is not None: return h.I.final.m.get(out, lst_of([77, 78, 79]))
        if r is not None and r[0] == 'addr' and r[1][0] != 'new': r = h.I.read(h.I.final, r[1])
        return r


def judge(ck, L, F, h, w, tl, parts, req, want, mesh, counts):
    et, ek = F.enum('Jali::Entity_type'), F.enum('Jali::Entity_kind')
    q = TileQ(F, h)
    # the mesh knows its tiles
    r = q(MESH, 'num_tiles', cls=M); L.see('num_tiles', num(r), len(tl), '', q.f)
    r = q(MESH, 'tiles', cls=M)
    e = elems(r) if r is not None else None
    L.see('the tiles of the mesh', None if e is None else [tileloc(x) for x in e], tl, '', q.f)
    lists = []
    for i, (t, p) in enumerate(zip(tl, parts)):
        r = q(t, 'ID'); L.see('the number of a tile', num(r), i, i, q.f)
        r = q(t, 'mesh'); L.see('the mesh of a tile', 'its own' if q.raw in (MESH, ('addr', ('deref', MESH)), ('deref', MESH)) else short(q.raw) if r is not None else None, 'its own', i, q.f)
        g = mesh['cells'](p)
        own = {'cell': (list(p), sorted(g))}
        got = {}
        for k in KINDS:
            for y in PT:
                r = q(t, k + 's', targs=[targ(y)])
                got[k, y] = nums(r)
                n = num(q(t, 'num_%ss' % k, targs=[targ(y)]))
                if got[k, y] is not None and got[k, y] is not False: L.see('num_%ss is the number of %ss' % (k, k), n, len(got[k, y]), '%s of tile %d' % (y, i), q.f)
                n = num(q(t, 'num_entities', ek[EKIND[k]], et[y]))
                if got[k, y] is not None and got[k, y] is not False: L.see('num_entities is the number of %ss' % k, n, len(got[k, y]), '%s of tile %d' % (y, i), q.f)
            a, b, c = [got[k, y] for y in PT]
            if None in (a, b, c) or False in (a, b, c): L.see('the lists of %ss' % k, None, [], i); continue
            ctor = F.by_qn['Jali::MeshTile::MeshTile'][0]
            L.see('the %ss are the owned and the ghost ones, each once' % k, sorted(a + b), sorted(set(c)) if len(set(a + b)) == len(a + b) else 'without repetition', i, ctor)
            L.see('the %ss are the owned and the ghost ones, in this order' % k, c, a + b, i, ctor)
        lists.append(got)
        c = lambda k, y: sorted(got[k, y]) if got[k, y] not in (None, False) else None
        ctor = F.by_qn['Jali::MeshTile::MeshTile'][0]
        L.see('the owned cells of a tile', got['cell', PT[0]], list(p), i, ctor)
        L.see('the halo of a tile', c('cell', PT[1]), sorted(g), i, ctor)
        for k in KINDS[:-1]:
            if k != 'node' and k[0] not in req:
                L.see('%ss that are not asked for' % k, c(k, PT[2]), [], i, ctor); continue
            of = lambda cs: sorted({x for y in cs for x in mesh[k](y)})
            if k in ('node', 'edge', 'face'):
                a = c(k, PT[0])
                L.see('the %ss of a tile are those of its cells' % k, c(k, PT[2]), of(list(p) + list(g)), i, ctor)
                if a is not None: L.see('the owned %ss of a tile are of its owned cells' % k, [x for x in a if x not in of(p)], [], i, ctor)
            else:
                L.see('the owned %ss of a tile' % k, c(k, PT[0]), of(p), i, ctor)
                L.see('the ghost %ss of a tile' % k, c(k, PT[1]), of(g), i, ctor)
        # sets
        sets(L, F, h, t, got, counts, et, ek, i)
    # owners
    for k in ('node', 'edge', 'face', 'cell'):
        if not counts[k] or k in ('edge', 'face') and k[0] not in req: continue
        owner = {}
        for i, got in enumerate(lists):
            for x in got[k, PT[0]] or []:
                L.see('no %s has two owners' % k, owner.get(x, i), i, x)
                owner.setdefault(x, i)
        if k != 'cell':
            every = {x for p in parts for c in p for x in mesh[k](c)}
            L.see('every %s of the cells of the tiles has an owner' % k, sorted(owner), sorted(every))
        for x in range(counts[k]):
            r = q(MESH, 'master_tile_ID_of_' + k, x, cls=M)
            L.see('master_tile_ID_of_' + k, num(r), owner.get(x, -1), x, q.f)
    for k in ('side', 'wedge', 'corner'):
        if k[0] not in want or not all(x in want for x in {'side': 's', 'wedge': 'sw', 'corner': 'swc'}[k]): continue
        for cell in range(counts['cell']):
            for x in mesh[k](cell) or []:
                r = q(MESH, 'master_tile_ID_of_' + k, x, cls=M)
                L.see('master_tile_ID_of_' + k, num(r), next((i for i, p in enumerate(parts) if cell in p), -1), x, q.f)


def sets(L, F, h, t, got, counts, et, ek, i):
    """a set of the mesh in a tile: of a set of every other entity, half of them ghosts"""
    for k in KINDS:
        have = got[k, 'ALL']
        if have in (None, False): continue
        inset = [x for x in range(0, max(have + [0]) + 3) if x % 2 == 0 or x % 3 == 0][::-1]
        by = {et['ALL']: inset, et['PARALLEL_OWNED']: [x for x in inset if x % 4 != 2], et['PARALLEL_GHOST']: [x for x in inset if x % 4 == 2]}
        name = mk(('sym', 'a set'))

        def hook(I, st, e):
            n, kk, y = [argterm(I, e, j, st) for j in range(3)]
            if not (is_num(kk) and is_num(y)) or y[1] not in by: return None
            # a set of the same name of entities of another kind has others
            I.write(st, I.ptr_loc(argterm(I, e, 3, st)), lst_of(by[y[1]] if kk[1] == ek[EKIND[k]] else list(range(max(have + [0]) + 3))), e)
            return ('void',)
        g = h.copy()
        g.hooks = dict(h.hooks); g.hooks[M + 'get_set_entities'] = hook
        q = TileQ(F, g)
        for y in PT:
            r = q(t, 'get_set_entities', name, ek[EKIND[k]], et[y], None)
            r = nums(r)
            L.see('get_set_entities of %ss' % k, sorted(r) if r else r, sorted(x for x in inset if x in got[k, y]), '%s of tile %d' % (y, i), q.f)
