"""C20: sides, wedges and corners decompose the cells."""
from .meshes import *

RULE = ('Mesh::cache_extra_variables and the queries about sides, wedges and corners are evaluated over small abstract meshes on a line, in the plane and in space (mixed orientations of faces and edges, cells '
        'of different shapes, owned, ghost and boundary ghost): one side per cell, face and edge of it, with its nodes in the order of positive volume; opposite sides and wedges share face, edge and node '
        'across cells; two wedges per side, one per node; one corner per cell and node, which has exactly the wedges of that cell at that node; every part has the type of its cell, and the lists of parts by type are complete.')
KINDSETS = ('fes', 'feswc', 'fesw')


def check():
    ck = Check('C20', RULE)
    F = ck.load('mesh')
    ck.bounds()
    for t in topologies() + large():
        if t.geom != 'CARTESIAN': continue
        w = World(F, t, geometry=False)
        w.build()
        parts(ck, w, t.name)
        w = World(F, t, geometry=False, want='fes')
        w.build()
        parts(ck, w, t.name + ', only sides', 's')
    return ck.finish()


def parts(ck, w, name, want='swc'):
    T, et, ek, F = w.T, w.et, w.ek, w.F
    Q = Queries(ck, w, name)
    ty = {'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}
    TY = {'PARALLEL_OWNED': 'O', 'PARALLEL_GHOST': 'G', 'BOUNDARY_GHOST': 'B'}
    expected = T.sides()
    per = {c: [s for s in expected if s[0] == c] for c in range(T.nc)}
    one = lambda n, *a: num(w.q(n, *a))

    def see(what, got, want, args): Q.seen(what, [got], [want], args)
    # sides
    side = {}
    for c in range(T.nc):
        w.q('cell_get_sides', c, None)
        l = nums(w.last[0])
        if l in (None, False): see('cell_get_sides', l, [], c); continue
        got = []
        for s in l:
            q = tuple(one(n, s) for n in ('side_get_cell', 'side_get_face', 'side_get_edge')) + ((one('side_get_node', s, C(0)), one('side_get_node', s, C(1))),)
            if None in q or None in q[3]: see('cell_get_sides', None, [], c)
            side[s] = q
            got.append(q)
            if None not in q and None not in q[3]:
                see('side_get_node', q, q if q in expected else next((x for x in expected if x[:3] == q[:3]), '(no such side)'), s)
                use = 1 if q[2] < T.ne and T.edges[q[2]] == q[3] else 0
                see('side_get_edge_use', one('side_get_edge_use', s), use, s)
        see('cell_get_sides', sorted(str(q[:3]) for q in got), sorted(str(q[:3]) for q in per[c]), c)
    see('sides of all cells', sorted(side), list(range(len(expected))), 'the mesh')
    for s, q in side.items():
        o = [x for x, y in side.items() if y[1:3] == q[1:3] and y[0] != q[0]]
        if T.dim == 3 or T.dim == 2 or T.dim == 1: see('side_get_opposite_side', one('side_get_opposite_side', s), o[0] if o else -1, s)
    lists(Q, w, 'sides', {s: T.ctypes[q[0]] for s, q in side.items() if q[0] is not None})
    if 'w' not in want: return Q.done(lambda k: where(F, k))
    # wedges
    wedge = {}
    for s, q in side.items():
        ws = [one('side_get_wedge', s, C(i)) for i in (0, 1)]
        for i, x in enumerate(ws):
            if x is None or x in wedge: see('side_get_wedge', x if x is None else '%s again' % x, 'another wedge', s); continue
            wedge[x] = (s, i)
            see('wedge_get_node', one('wedge_get_node', x), q[3][i], x)
            for j, n in enumerate(('wedge_get_cell', 'wedge_get_face', 'wedge_get_edge')): see(n, one(n, x), q[j], x)
            see('wedge_get_adjacent_wedge', one('wedge_get_adjacent_wedge', x), ws[1 - i], x)
    for x, (s, i) in wedge.items():
        q = side[s]
        o = [y for y, (t, j) in wedge.items() if side[t][1:3] == q[1:3] and side[t][0] != q[0] and (side[t][3][j] == q[3][i] and (T.dim > 1 or j != i))]
        see('wedge_get_opposite_wedge', one('wedge_get_opposite_wedge', x), o[0] if o else -1, x)
    see('wedges of all sides', sorted(wedge), list(range(2 * len(side))), 'the mesh')
    for c in range(T.nc):
        w.q('cell_get_wedges', c, None)
        l = nums(w.last[0])
        see('cell_get_wedges', sorted(l) if l else l, sorted(x for x, (s, i) in wedge.items() if side[s][0] == c), c)
    lists(Q, w, 'wedges', {x: T.ctypes[side[s][0]] for x, (s, i) in wedge.items()})
    if 'c' not in want: return Q.done(lambda k: where(F, k))
    # corners
    corner = {}
    for c in range(T.nc):
        w.q('cell_get_corners', c, None)
        l = nums(w.last[0])
        if l in (None, False): see('cell_get_corners', l, [], c); continue
        got = []
        for k in l:
            n = one('corner_get_node', k)
            corner[k] = (c, n)
            got.append(n)
            see('corner_get_cell', one('corner_get_cell', k), c, k)
            w.q('corner_get_wedges', k, None)
            ws = nums(w.last[0])
            see('corner_get_wedges', sorted(ws) if ws else ws, sorted(x for x, (s, i) in wedge.items() if side[s][0] == c and side[s][3][i] == n), k)
        see('cell_get_corners', sorted(str(x) for x in got), sorted(str(x) for x in T.cnodes[c]), c)
        for n in T.cnodes[c]: see('cell_get_corner_at_node', one('cell_get_corner_at_node', c, n), next((k for k, x in corner.items() if x == (c, n)), '(no such corner)'), (c, n))
    see('corners of all cells', sorted(corner), list(range(sum(len(x) for x in T.cnodes))), 'the mesh')
    for x, (s, i) in wedge.items():
        see('wedge_get_corner', one('wedge_get_corner', x), next((k for k, y in corner.items() if y == (side[s][0], side[s][3][i])), '(no such corner)'), x)
    for n in range(T.nn):
        for t in ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'BOUNDARY_GHOST', 'ALL'):
            w.q('node_get_corners', n, C(et[t]), None)
            l = nums(w.last[0])
            see('node_get_corners, %s' % t, sorted(l) if l else l, sorted(k for k, (c, m) in corner.items() if m == n and t in ('ALL', tname(TY, T.ctypes[c]))), n)
            w.q('node_get_wedges', n, C(et[t]), None)
            l = nums(w.last[0])
            see('node_get_wedges, %s' % t, sorted(l) if l else l, sorted(x for x, (s, i) in wedge.items() if side[s][3][i] == n and t in ('ALL', tname(TY, T.ctypes[side[s][0]]))), n)
    lists(Q, w, 'corners', {k: T.ctypes[c] for k, (c, n) in corner.items()})
    Q.done(lambda k: where(F, k))


def tname(TY, t): return next(k for k, v in TY.items() if v == t)


def lists(Q, w, kind, types):
    """the ids by type, their number and the type of each"""
    et, ek = w.et, w.ek
    K = kind[:-1].upper()
    for t, c in (('PARALLEL_OWNED', 'O'), ('PARALLEL_GHOST', 'G'), ('BOUNDARY_GHOST', 'B'), ('ALL', None)):
        want = sorted(i for i, x in types.items() if c in (None, x))
        l = nums(w.q(kind, targs=['Jali::Entity_type::' + t]))
        Q.seen('%s<%s>' % (kind, t), [sorted(l) if l else l], [want], 'the mesh')
        Q.seen('num_%s<%s>' % (kind, t), [num(w.q('num_' + kind, targs=['Jali::Entity_type::' + t]))], [len(want)], 'the mesh')
    for i, x in types.items():
        Q.seen('entity_get_type of %s' % kind, [num(w.q('entity_get_type', C(ek[K]), i))], [{'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}[x]], i)


def where(F, k):
    n = k.split(',')[0].split(' ')[0].split('<')[0]
    fs = F.by_qn.get(M + n) or F.by_qn.get(M + {'sides': 'cache_side_info', 'wedges': 'cache_wedge_info', 'corners': 'cache_corner_info'}.get(n, ''), [])
    return fs[0] if fs else None
