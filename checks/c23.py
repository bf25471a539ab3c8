"""C23: adjacency queries give what the mesh framework gives."""
from .meshes import *

RULE = ('Mesh::cache_extra_variables and the adjacency queries are evaluated over small abstract meshes on a line, in the plane and in space whose topology is given behind the primitives of the framework '
        '(faces, edges and nodes of mixed orientation, owned, ghost and boundary ghost cells, cells with different numbers of faces): every query, for every entity and every type, must give the '
        'framework\'s answer, filtered by the type asked for, whatever was in the list it fills.')


def check():
    ck = Check('C23', RULE)
    F = ck.load('mesh')
    ck.bounds()
    f = F.fn(M + 'cache_extra_variables')
    for t in topologies() + large():
        for want in ('fe', 'f', ''):
            w = World(F, t, geometry=False, want=want)
            w.build()
            adjacency(ck, w, t.name + {'fe': '', 'f': ' without edges', '': ' without faces'}[want], want)
    return ck.finish()


def adjacency(ck, w, name, want):
    T, et, ek = w.T, w.et, w.ek
    Q = Queries(ck, w, name)
    ty = {'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}
    for c in range(T.nc if want else 0):
        fs, ds = T.cfaces[c], T.cdirs[c]
        Q.one('cell_get_num_faces', 'cell_get_num_faces', (c,), len(fs))
        for o in (False, True):
            a, b = (fs[1:] + fs[:1], ds[1:] + ds[:1]) if o else (fs, ds)
            w.q('cell_get_faces_and_dirs', c, None, None, TRUE if o else FALSE)
            g = [nums(x) for x in w.last]
            if o or None in g or False in g: Q.seen('cell_get_faces_and_dirs, ordered', g, [a, b], c)
            else: Q.seen('cell_get_faces_and_dirs', [sorted(zip(*g)) if len(g[0]) == len(g[1]) else g[0]], [sorted(zip(a, b))], c)
            w.q('cell_get_faces_and_dirs', c, None, C(0), TRUE if o else FALSE)
            Q.seen('cell_get_faces_and_dirs%s, without directions' % (', ordered' if o else ''), [nums(w.last[0])], [a], c, not o)
            w.q('cell_get_faces', c, None, TRUE if o else FALSE)
            Q.seen('cell_get_faces%s' % (', ordered' if o else ''), [nums(w.last[0])], [a], c, not o)
        if 'e' in want:
            Q.lists('cell_get_edges', 'cell_get_edges', (c,), [T.cedges[c]], asset=True)
            ce = nums(w.last[0]) or []
            if T.dim == 2:
                w.q('cell_2D_get_edges_and_dirs', c, None, None)
                g = [nums(x) for x in w.last]
                Q.seen('cell_2D_get_edges_and_dirs', g if None in g or False in g or len(g[0]) != len(g[1]) else [sorted(zip(*g))], [sorted(zip(T.cfaces[c], T.cdirs[c]))], c)
            for f in T.cfaces[c]:
                Q.lists('face_to_cell_edge_map', 'face_to_cell_edge_map', (f, c), [[ce.index(e) if e in ce else -1 for e in T.fedges[f]]])
    for f in range(T.nf if want else 0):
        for t in ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'ALL'):
            cs = [c for c in T.fcells[f] if t == 'ALL' or ty[T.ctypes[c]] == et[t]]
            Q.lists('face_get_cells, %s' % t, 'face_get_cells', (f, C(et[t])), [cs], asset=True)
        if 'e' in want:
            w.q('face_get_edges_and_dirs', f, None, None, TRUE)
            Q.seen('face_get_edges_and_dirs', [nums(x) for x in w.last], [T.fedges[f], T.fedirs[f]], f)
            w.q('face_get_edges_and_dirs', f, None, C(0), TRUE)
            Q.seen('face_get_edges_and_dirs, without directions', [nums(w.last[0])], [T.fedges[f]], f)
            # any order will do, but edges and directions belong together
            w.q('face_get_edges_and_dirs', f, None, None, FALSE)
            g = [nums(x) for x in w.last]
            ok = None not in g and False not in g and len(g[0]) == len(g[1])
            Q.seen('face_get_edges_and_dirs, unordered', [sorted(zip(*g))] if ok else [None if None in g else False], [sorted(zip(T.fedges[f], T.fedirs[f]))], f)
    if 'e' in want:
        for e in range(T.ne):
            w.q('edge_get_nodes', e, None, None)
            Q.seen('edge_get_nodes', [num(x) for x in w.last], list(T.edges[e]), e)
    for f in w.F.by_qn.get(M + 'node_get_coordinates', []):
        t = f['params'][1]['t'] if len(f['params']) == 2 else ''
        n = next((i for i in (1, 2, 3) if ('array<double, %d' % i in t or i == 1 and 'double *' in t)), 0)
        if f.get('body') is None or n != T.sdim: continue
        for i in range(T.nn):
            r = w.q(f, i, None)[0]
            got = [r] if n == 1 else [index(r, C(j)) for j in range(n)] if r is not None else [None]
            Q.seen('node_get_coordinates, as numbers', [None if g is None else 'x%d_%d' % (i, w.sym[i].index(mk(g))) if mk(g) in w.sym[i] else str(g)[:60] for g in got], ['x%d_%d' % (i, j) for j in range(n)], i)
    for k, ts in (('CELL', T.ctypes), ('FACE', T.ftypes), ('EDGE', T.etypes), ('NODE', T.ntypes)):
        for i, t in enumerate(ts):
            known = (k != 'EDGE' or 'e' in want) and (k != 'FACE' or 'f' in want)
            Q.one('entity_get_type of %s' % k.lower() + 's', 'entity_get_type', (C(ek[k]), i), ty[t] if known else et['TYPE_UNKNOWN'])
    Q.done(lambda k: next(iter(w.F.by_qn.get(M + k.split(',')[0].split(' ')[0], [])), None))
