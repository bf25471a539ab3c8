"""C21: building a set from a region gives exactly the entities the region selects; every region gets its sets once."""
import itertools
from .objs import *
from .c13 import Sets, agree
from .c14 import meshsets_loc
from . import c18, c25, meshes

RULE = ('Mesh::build_set_from_region and Mesh::init_sets_from_geometric_model are evaluated over an abstract mesh with a few owned and ghost cells, faces and nodes and geometric models with regions '
        'of every type, for every table of which points lie inside: the set must have exactly the selected entities, in the owned or the ghost list by their type, the name of the region and the '
        'requested kind, and be registered once; logical regions must combine the sets of their components; requests that cannot be met must raise an error.')
G = 'JaliGeometry::'
MESH = mk(('new', 901, 'Jali::Mesh'))
GM = mk(('new', 902, G + 'GeometricModel'))
CELLS, FACES, NODES = 'OGGB', 'OGOG', 'GOGO'   # cells behind the boundary come last
PAT = {'CELL': CELLS, 'FACE': FACES, 'NODE': NODES}
CLS = {'BOX': 'BoxRegion', 'PLANE': 'PlaneRegion', 'POINT': 'PointRegion', 'LOGICAL': 'LogicalRegion', 'LABELEDSET': 'LabeledSetRegion', 'POLYGON': 'PolygonRegion'}
# faces and cells as lists of nodes
FN = [(0, 1), (1, 2), (2, 3), (3, 0)]
CN = [(0, 1, 2), (1, 2, 3), (0, 2, 3), (0, 1, 3)]


class World:
    def __init__(self, F, S, regions, dim=3, mdim=3, tables=None, labeled=None, near=None, faces=True, npcells=(0, 1, 2, 3), pin=()):
        """regions: [(name, type, dimension, extra)]; tables: name -> points inside"""
        self.F, self.S = F, S
        self.ek, self.et = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
        self.tables = tables or {}
        ek, et = self.ek, self.et
        kinds = {ek[k]: p for k, p in PAT.items()}
        ty = {'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}
        P = lambda k, i: ('sym', '%s%d' % (k, i))
        names = {}

        def num(I, st, e):
            k, t = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if not (is_num(k) and is_num(t)) or k[1] not in kinds: return None
            p = kinds[k[1]]
            return C(len(p) if t[1] == et['ALL'] else sum(p.count(c) for c, v in ty.items() if v == t[1]))

        def gt(I, st, e):
            k, x = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if not (is_num(k) and is_num(x)) or k[1] not in kinds or not 0 <= x[1] < len(kinds[k[1]]): return None
            return C(ty[kinds[k[1]][x[1]]])

        def cen(k):
            def h(I, st, e):
                x = argterm(I, e, 0, st)
                if not is_num(x): return None
                return P(k, x[1])
            return h

        def coords(tab):
            def h(I, st, e):
                x, p = argterm(I, e, 0, st), argterm(I, e, 1, st)
                if not is_num(x): return None
                if not 0 <= x[1] < 4: I.write(st, I.ptr_loc(p), ('unk',), e); return ('void',)
                I.write(st, I.ptr_loc(p), P('n', x[1]) if tab is None else lst(tuple(P('n', i) for i in tab[x[1]])), e)
                return ('void',)
            return h

        def inside(I, st, e):
            r = I.eval(e['obj'], st)
            p = argterm(I, e, 0, st)
            n = names.get(r)
            if n is None or p[0] != 'sym': return None
            return TRUE if p[1] in self.tables.get(n, ()) else FALSE

        def label(I, st, e):
            r, k = argterm(I, e, 0, st), argterm(I, e, 1, st)
            n = names.get(r)
            if n is None or not is_num(k): return None
            o, g = (labeled or {}).get((n, k[1]), ([], []))
            I.write(st, I.ptr_loc(argterm(I, e, 2, st)), lst_of(o), e)
            I.write(st, I.ptr_loc(argterm(I, e, 3, st)), lst_of(g), e)
            return ('void',)

        def ncells(I, st, e):
            x, t, p = argterm(I, e, 0, st), argterm(I, e, 1, st), argterm(I, e, 2, st)
            if not is_num(x): return None
            self.asked.append(x[1])
            I.write(st, I.ptr_loc(p), lst_of([c for c in npcells if not is_num(t) or t[1] == et['ALL'] or ty[CELLS[c]] == t[1]]), e)
            return ('void',)

        def pic(I, st, e):
            c = argterm(I, e, 1, st)
            return (TRUE if c[1] in pin else FALSE) if is_num(c) else None

        def minus(I, st, e):
            a, b = argterm(I, e, 0, st), argterm(I, e, 1, st)
            for x in (a, b):
                if x[0] == 'sym' and x[1].startswith('n'): return ('sym', 'd' + x[1][1:])
            return None

        def times(I, st, e):
            a = argterm(I, e, 0, st)
            return C((near or {}).get(int(a[1][1:]), 9)) if a[0] == 'sym' and a[1][0] == 'd' else None

        def vdim(v): return lambda I, st, e: C(v)
        M = 'Jali::Mesh::'
        self.asked = []
        hooks = {M + 'num_entities': num, M + 'entity_get_type': gt, M + 'cell_centroid': cen('c'), M + 'face_centroid': cen('f'),
                 M + 'node_get_coordinates': coords(None), M + 'face_get_coordinates': coords(FN), M + 'cell_get_coordinates': coords(CN),
                 M + 'get_labeled_set_entities': label, M + 'node_get_cells': ncells, M + 'point_in_cell': pic,
                 M + 'space_dimension': vdim(dim), M + 'manifold_dimension': vdim(mdim),
                 G + 'Region::inside': inside, G + 'operator-': minus, G + 'operator*': times, G + 'PointRegion::point': lambda I, st, e: ('sym', 'rp')}
        for c in CLS.values(): hooks[G + c + '::inside'] = inside
        self.h = h = Heap(F, hooks=hooks, depth=10, unroll=64)
        h.recurse = 2
        self.L = meshsets_loc(F)(MESH)
        h.m[self.L] = EMPTY
        for f in ('space_dim_', 'manifold_dim_'): h.m[mk(('fld', MESH, M + f))] = C(dim if f[0] == 's' else mdim)
        h.m[mk(('fld', MESH, M + 'geometric_model_'))] = GM
        h.m[mk(('fld', MESH, M + 'faces_requested'))] = TRUE if faces else FALSE
        g = next(f for f in F.fns(G + 'GeometricModel::GeometricModel') if len(f['params']) == 1 and f['params'][0]['t'] in ('unsigned int', 'const unsigned int'))
        h.call(g, GM, {g['params'][0]['n']: C(dim)})
        rl = h.m.get(mk(('fld', GM, G + 'GeometricModel::Regions')))
        self.regs = {}
        for i, (n, t, d, x) in enumerate(regions):
            r = mk(('new', 930 + i, G + CLS[t]))
            names[r] = n
            self.regs[n] = r
            life = C(F.enum(G + 'LifeCycle_type')['TEMPORARY' if 'tmp' in x else 'PERMANENT'])
            if t in ('LOGICAL', 'LABELEDSET'):
                c = [f for f in F.fns(G + CLS[t] + '::' + CLS[t]) if f['kind'] == 'ctor' and len(f['params']) > 2
                     and (t == 'LABELEDSET' or 'Bool_type' in f['params'][2]['t'])]
                ps = [p['n'] for p in c[0]['params']]
                vals = [C(n), C(i), C(F.enum(G + 'Bool_type')[x['op']]), lst(tuple(C(y) for y in x['of'])), life] if t == 'LOGICAL' else [C(n), C(i), C(x['kind']), C('file'), C('fmt'), C('label'), life]
            else:
                c = [f for f in F.fns(G + 'Region::Region') if len(f['params']) == 4]
                ps = [p['n'] for p in c[0]['params']]
                vals = [C(n), C(i), C(d), life]
            if not c: raise AnalysisError('constructor of %s not found' % CLS[t])
            h.call(c[0], r, dict(zip(ps, vals)))
        h.m[mk(('fld', GM, G + 'GeometricModel::Regions'))] = lst(tuple(self.regs[n] for n, *_ in regions)) if regions else EMPTY
        self.seen = 0

    def build(self, name, kind):
        f = self.F.fn('Jali::Mesh::build_set_from_region')
        ps = f['params']
        return self.h.call(f, MESH, {ps[0]['n']: C(name), ps[1]['n']: C(self.ek[kind]), ps[2]['n']: FALSE})

    def sets(self):
        e = elems(self.h.m.get(self.L, ('unk',)))
        return None if e is None else list(e)

    def describe(self, s):
        """(name, kind, owned, ghost) of a set"""
        if s is None or s[0] != 'new': return None
        F, h = self.F, self.h
        n = h.see(F.fn('Jali::MeshSet::name'), s)
        k = h.see(F.fn('Jali::MeshSet::kind'), s)
        v = self.S.see(h, s)
        o, g = v['PARALLEL_OWNED'], v['PARALLEL_GHOST']
        kn = {v: k for k, v in self.ek.items()}
        n = folded(n)
        if n is None or k is None or n[0] != 'c' or not is_num(k) or o is None or g is None: return None
        return n[1], kn.get(k[1]), o, g


def folded(n):
    """a text put together from known pieces"""
    if n is None or n[0] != 'strcat': return n
    a, b = folded(n[1]), folded(n[2])
    return C(a[1] + b[1]) if a[0] == b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str) else n


def check():
    ck = Check('C21', RULE)
    F = ck.load('mesh', 'geometry')
    ck.bounds()
    S = Sets(F)
    build(ck, F, S)
    point_cells(ck, F, S)
    labels(ck, F, S)
    logical(ck, F, S)
    refused(ck, F, S)
    initial(ck, F, S)
    valid(ck, F, S)
    found(ck, F, S)
    contains_point(ck, F)
    ck.count('evaluations', S.n)
    return ck.finish()


def split(kind, ids):
    p = PAT[kind]
    return [i for i in ids if p[i] == 'O'], [i for i in ids if p[i] == 'G']


class Verdict:
    """collects the cases of one obligation"""

    def __init__(self): self.bad, self.und, self.n = None, False, 0

    def same(self, w, r, name, kind, want, what, registered=True):
        """the set r has this name, kind and entities and is registered once"""
        self.n += 1
        d = w.describe(r)
        reg = w.sets()
        if d is None or w.h.pc != TRUE or reg is None:
            if w.h.pc == FALSE: self.fail(what + ': gives up')
            else: self.und = True
            return
        o, g = split(kind, want)
        if d[0] != name: self.fail('%s: the set is called %s' % (what, d[0]))
        if d[1] != kind: self.fail('%s: the set has kind %s' % (what, d[1]))
        if sorted(d[2]) != o or sorted(d[3]) != g: self.fail('%s: the set has owned %s and ghost %s, not %s and %s' % (what, d[2], d[3], o, g))
        if reg.count(r) != (1 if registered else 0): self.fail('%s: the set is registered %d times' % (what, reg.count(r)))

    def fail(self, m): self.bad = self.bad or m

    def done(self, ck, what, f, key): ck.ob(what, False if self.bad else None if self.und or not self.n else True, at(f), self.bad or '', key)


def build(ck, F, S):
    f = F.fn('Jali::Mesh::build_set_from_region')
    subs = [s for k in range(5) for s in itertools.combinations(range(4), k)]
    for kind, typ in (('CELL', 'BOX'), ('FACE', 'BOX'), ('NODE', 'BOX'), ('CELL', 'PLANE'), ('FACE', 'PLANE'), ('NODE', 'PLANE'), ('FACE', 'POLYGON'), ('NODE', 'POLYGON')):
        v = Verdict()
        for s in subs:
            of_nodes = typ != 'BOX' or kind == 'NODE'
            pts = ['n%d' % i for i in s] if of_nodes else [kind[0].lower() + str(i) for i in s]
            if kind == 'NODE' or not of_nodes: want = list(s)
            else: want = [i for i, ns in enumerate(CN if kind == 'CELL' else FN) if set(ns) <= set(s)]
            w = World(F, S, [('Q', 'BOX', 3, {}), ('R', typ, 3 if typ == 'BOX' else 2, {})], tables={'R': pts, 'Q': ['c0', 'f0', 'n0', 'n1']}, mdim=2 if (kind, typ) == ('CELL', 'PLANE') else 3)
            r = w.build('R', kind)
            v.same(w, r, 'R', kind, want, 'points %s inside' % (pts,))
        v.done(ck, 'the %s set of a %s region has exactly the %ss it selects' % (kind.lower(), typ.lower(), kind.lower()), f, 'build:%s:%s' % (kind, typ))
    # planes hold no cells of a solid
    v = Verdict()
    w = World(F, S, [('R', 'PLANE', 2, {})], tables={'R': ['n0', 'n1', 'n2', 'n3']})
    v.same(w, w.build('R', 'CELL'), 'R', 'CELL', [], 'a plane through a solid mesh')
    v.done(ck, 'a plane has no cells of a solid mesh', f, 'build:CELL:PLANE3')
    # a point selects at most one node
    v = Verdict()
    for i in range(4):
        w = World(F, S, [('R', 'POINT', 0, {})], tables={'R': ['n%d' % i]})
        v.same(w, w.build('R', 'NODE'), 'R', 'NODE', [i], 'node %d at the point' % i)
    w = World(F, S, [('R', 'POINT', 0, {})])
    v.same(w, w.build('R', 'NODE'), 'R', 'NODE', [], 'no node at the point')
    v.done(ck, 'the node set of a point region has the node at the point', f, 'build:NODE:POINT')


def point_cells(ck, F, S):
    f = F.fn('Jali::Mesh::build_set_from_region')
    v = Verdict()
    for near, at_ in (({0: 1}, 0), ({2: 1}, 2), ({3: 1, 1: 2}, 3), ({1: 3, 2: 3}, None), ({0: 1e-20, 1: 0}, 1), ({1: 1e-4, 2: 1e-8, 3: 1e-12}, 3)):
        for cells in ((0, 1, 2, 3), (1, 2), (3,)):
            for pin in ((), (0,), (1, 2), (0, 3), (0, 1, 2, 3)):
                w = World(F, S, [('R', 'POINT', 0, {})], near=near, npcells=cells, pin=pin)
                r = w.build('R', 'CELL')
                what = 'cells %s around the nearest node, the point in %s' % (cells, pin)
                v.same(w, r, 'R', 'CELL', [c for c in cells if c in pin], what)
                if at_ is not None and w.asked and set(w.asked) != {at_}: v.fail(what + ': looks around node %s, the nearest is %d' % (w.asked, at_))
    v.done(ck, 'the cell set of a point region has the cells around the nearest node that contain the point', f, 'build:CELL:POINT')


def labels(ck, F, S):
    f = F.fn('Jali::Mesh::build_set_from_region')
    for kind in ('CELL', 'FACE', 'NODE'):
        v = Verdict()
        for pre in ('', 'Entity_kind::'):
            for s in ((), (0, 1, 2, 3), (1, 2), (3, 0)):
                o, g = split(kind, s)
                w = World(F, S, [('Q', 'LABELEDSET', 3, {'kind': 'EDGE'}), ('R', 'LABELEDSET', 3, {'kind': pre + kind})])
                w.h.hooks['Jali::Mesh::get_labeled_set_entities'] = labelhook(w, {('R', w.ek[kind]): (o, g)})
                v.same(w, w.build('R', kind), 'R', kind, list(s), 'labeled set of %s%s with %s' % (pre, kind, s))
        v.done(ck, 'the %s set of a labeled set region has the entities of the labeled set' % kind.lower(), f, 'build:%s:LABELEDSET' % kind)
        v = Verdict()
        for other in ('CELL', 'FACE', 'NODE', 'EDGE'):
            for pre in ('', 'Entity_kind::'):
                if other == kind: continue
                w = World(F, S, [('R', 'LABELEDSET', 3, {'kind': pre + other})])
                w.h.hooks['Jali::Mesh::get_labeled_set_entities'] = labelhook(w, {})
                w.build('R', kind)
                throws(v, w, 'asked for %ss of a labeled set of %s%s' % (kind.lower(), pre, other))
        v.done(ck, 'a labeled set of other entities is refused as %s set' % kind.lower(), f, 'mismatch:' + kind)


def labelhook(w, tab):
    by = {r: n for n, r in w.regs.items()}

    def label(I, st, e):
        r, k = argterm(I, e, 0, st), argterm(I, e, 1, st)
        n = by.get(r)
        if n is None or not is_num(k): return None
        o, g = tab.get((n, k[1]), ([], []))
        I.write(st, I.ptr_loc(argterm(I, e, 2, st)), lst_of(o), e)
        I.write(st, I.ptr_loc(argterm(I, e, 3, st)), lst_of(g), e)
        return ('void',)
    return label


def throws(v, w, what):
    v.n += 1
    if w.h.pc == TRUE: v.fail(what + ': no error')
    elif w.h.pc != FALSE: v.und = True
    if w.h.pc == FALSE and w.sets(): v.fail(what + ': a set is left behind')


TAB = {'A': {'CELL': (0, 2), 'FACE': (0, 1, 2), 'NODE': (1, 2)}, 'B': {'CELL': (0, 1), 'FACE': (2, 3), 'NODE': (0, 1)}, 'D': {'CELL': (0, 3), 'FACE': (1,), 'NODE': (1, 3)}}


def tables():
    return {n: ['%s%d' % (k[0].lower(), i) for k in t for i in t[k]] for n, t in TAB.items()}


def combine(op, kind, names):
    s = [set(TAB[n][kind]) for n in names]
    if op == 'UNION': return sorted(set().union(*s))
    if op == 'INTERSECT': return sorted(set.intersection(*s))
    if op == 'SUBTRACT': return sorted(s[0] - set().union(*s[1:]))
    return sorted(set(range(4)) - set().union(*s))


def logical(ck, F, S):
    f = F.fn('Jali::Mesh::build_set_from_region')
    boxes = [(n, 'BOX', 3, {}) for n in 'ABD']
    for op in ('UNION', 'INTERSECT', 'SUBTRACT', 'COMPLEMENT'):
        v = Verdict()
        for kind in ('CELL', 'FACE', 'NODE'):
            for names in (('A',), ('A', 'B'), ('B', 'A'), ('D', 'B'), ('A', 'B', 'D'), ('D', 'B', 'A'), ('A', 'A'), ('B', 'A', 'B')):
                if op == 'SUBTRACT' and len(names) < 2: continue
                for x in ({}, {'tmp': 1}):
                    for first in (False, True):
                        w = World(F, S, boxes + [('L', 'LOGICAL', 3, dict(x, op=op, of=names))], tables=tables())
                        if first: w.build(names[-1], kind)
                        before = w.sets()
                        what = '%s of %s, %s' % (op.lower(), ', '.join(names), 'temporary' if x else 'permanent')
                        r = w.build('L', kind)
                        v.same(w, r, 'L', kind, combine(op, kind, names), what, registered=not x)
                        reg = w.sets()
                        if reg is not None and before is not None:
                            if reg[:len(before)] != before: v.fail(what + ': sets made before are gone')
                            if r in before: v.fail(what + ': is a set made before')
                            ds = [w.describe(t) for t in reg]
                            if None not in ds:
                                for n in names:
                                    c = [d for d in ds if d[:2] == (n, kind)]
                                    if len(c) != 1: v.fail('%s: %d sets of %s' % (what, len(c), n))
                                    elif (sorted(c[0][2]), sorted(c[0][3])) != split(kind, TAB[n][kind]): v.fail('%s: the set of %s has %s' % (what, n, c[0][2:]))
        v.done(ck, 'the set of a %s region is the %s of the sets of its components' % (op.lower(), op.lower()), f, 'logical:' + op)
    v = Verdict()
    for kind in ('CELL', 'FACE', 'NODE'):
        w = World(F, S, boxes + [('M', 'LOGICAL', 3, {'op': 'UNION', 'of': ('A', 'B')}), ('L', 'LOGICAL', 3, {'op': 'SUBTRACT', 'of': ('D', 'M')})], tables=tables())
        v.same(w, w.build('L', kind), 'L', kind, sorted(set(TAB['D'][kind]) - set(TAB['A'][kind]) - set(TAB['B'][kind])), 'a logical region of a logical region')
    v.done(ck, 'logical regions combine logical regions', f, 'logical:nested')


def refused(ck, F, S):
    f = F.fn('Jali::Mesh::build_set_from_region')
    v = Verdict()
    for kind in ('CELL', 'FACE', 'NODE'):
        for regs in ([], [('A', 'BOX', 3, {})]):
            w = World(F, S, regs, tables=tables())
            w.build('R', kind)
            throws(v, w, '%s set of a region that is not there' % kind.lower())
    v.done(ck, 'a region that is not in the model is an error', f, 'refused:unknown')
    v = Verdict()
    for kind in ('CELL', 'FACE', 'NODE'):
        w = World(F, S, [('L', 'LOGICAL', 3, {'op': 'UNION', 'of': ('R', 'A')})], tables=tables())
        w.build('L', kind)
        throws(v, w, '%s set of a union of regions that are not there' % kind.lower())
    v.done(ck, 'a component that is not in the model is an error', f, 'refused:component')
    v = Verdict()
    for kind, t, d in (('CELL', 'POLYGON', 2), ('FACE', 'POINT', 0)):
        w = World(F, S, [('R', t, d, {})], tables={'R': ['n0', 'n1']})
        w.build('R', kind)
        throws(v, w, '%s set of a %s' % (kind.lower(), t.lower()))
    v.done(ck, 'a region that cannot select such entities is an error', f, 'refused:unsupported')
    v = Verdict()
    for kind in ('CELL', 'FACE', 'NODE'):
        w = World(F, S, [(n, 'BOX', 3, {}) for n in 'AB'] + [('L', 'LOGICAL', 3, {'op': 'NOBOOLEAN', 'of': ('A', 'B')})], tables=tables())
        w.build('L', kind)
        v.n += 1
        if w.h.pc == TRUE: v.fail('%s set of a logical region without an operation: no error' % kind.lower())
        elif w.h.pc != FALSE: v.und = True
    v.done(ck, 'a logical region without an operation is an error', f, 'refused:operation')


def initial(ck, F, S):
    fs = F.fns('Jali::Mesh::init_sets_from_geometric_model')
    f0 = next(f for f in fs if not f['params'])
    f1 = next(f for f in fs if f['params'])
    regs = [('A', 'BOX', 3, {}), ('P', 'PLANE', 2, {}), ('Q', 'POINT', 0, {}), ('S', 'LABELEDSET', 3, {'kind': 'FACE'}), ('T', 'LABELEDSET', 3, {'kind': 'Entity_kind::NODE'}),
            ('B', 'BOX', 3, {}), ('L', 'LOGICAL', 3, {'op': 'UNION', 'of': ('A', 'B')}), ('M', 'LOGICAL', 3, {'op': 'INTERSECT', 'of': ('A', 'S')}), ('U', 'LABELEDSET', 3, {'kind': 'CELL'})]
    tab = dict(tables(), P=['n0', 'n1'], Q=['n2'])

    def world(rs, dim, faces):
        w = World(F, S, rs, tables=tab, dim=dim, mdim=dim, faces=faces)
        w.h.hooks['Jali::Mesh::get_labeled_set_entities'] = labelhook(w, {('S', w.ek['FACE']): ([0], [1]), ('T', w.ek['NODE']): ([1], [2]), ('U', w.ek['CELL']): ([1], [2])})
        return w

    def wanted(rs, dim, faces):
        out = []
        for n, t, d, x in rs:
            if t == 'LABELEDSET': out.append((n, x['kind'].split('::')[-1])); continue
            lab = [y for y in rs if t == 'LOGICAL' and y[0] in x['of'] and y[1] == 'LABELEDSET']
            if lab: out.append((n, lab[0][3]['kind'].split('::')[-1])); continue
            if d >= dim: out.append((n, 'CELL'))
            if faces and d >= dim - 1: out.append((n, 'FACE'))
            out.append((n, 'NODE'))
        return out
    v, v2, v3 = Verdict(), Verdict(), Verdict()
    for faces in (True, False):
        for dim in (2, 3):
            rs = [r for r in regs if dim == 3 or r[1] in ('BOX', 'PLANE', 'POINT')]
            rs = [(n, t, min(d, dim) if t == 'BOX' else min(d, dim - 1) if t == 'PLANE' else d, x) for n, t, d, x in rs]

            if not faces: rs = [r for r in rs if r[0] not in ('S', 'M')]
            for sub in (rs, rs[:1], rs[2:4], list(reversed(rs)), []):
                if any(r[1] == 'LOGICAL' and not set(r[3]['of']) <= {q[0] for q in sub} for r in sub): continue
                w = world(sub, dim, faces)
                w.h.call(f0, MESH, {})
                what = 'regions %s in %d dimensions%s' % (', '.join('%s (%s)' % (n, t.lower()) for n, t, *_ in sub), dim, '' if faces else ', no faces')
                got = once(v, w, what)
                if got is None: continue
                want = set(wanted(sub, dim, faces))
                miss = [k for k in want if k not in got]
                more = [k for k in got if k not in want and not (k[0] in ('A', 'B'))]
                if miss: v.fail('%s: no %s set of %s' % (what, miss[0][1].lower(), miss[0][0]))
                if more: v.fail('%s: a %s set of %s' % (what, more[0][1].lower(), more[0][0]))
                n = len(got)
                w.h.call(f0, MESH, {})
                again = once(v2, w, what + ', again')
                if again is not None and len(again) != n: v2.fail('%s: %d sets, %d when asked again' % (what, n, len(again)))
    v.done(ck, 'every region gets one set of each kind of entity it can select', f1, 'initial:default')
    v2.done(ck, 'asking again makes no set twice', f1, 'initial:again')
    kinds = (('NODE',), ('CELL', 'NODE'), ('FACE',), ())
    for ka in kinds:
        for pre in (None, ('A', 'CELL'), ('A', 'NODE')):
            sub = [r for r in regs if r[0] in 'AB']
            w = world(sub, 3, True)
            if pre: w.build(*pre)
            ps = f1['params'][0]['n']
            w.h.call(f1, MESH, {ps: mapof({'A': ka}, w)})
            what = 'kinds %s asked of A%s' % (ka, ', which has a %s set' % pre[1].lower() if pre else '')
            got = once(v3, w, what)
            if got is None: continue
            want = {('A', k) for k in ka} | ({pre} if pre else set()) | {('B', k) for k in ('CELL', 'FACE', 'NODE')}
            if set(got) != want: v3.fail('%s: sets %s' % (what, sorted(got)))
    v3.done(ck, 'regions get exactly the kinds of sets asked for', f1, 'initial:asked')


def mapof(d, w):
    ps = tuple(('pair', C(n), lst(tuple(C(w.ek[k]) for k in ks)) if ks else EMPTY) for n, ks in sorted(d.items()))
    return ('list', ps) if ps else EMPTY


def once(v, w, what):
    v.n += 1
    reg = w.sets()
    ds = None if reg is None else [w.describe(s) for s in reg]
    if w.h.pc == FALSE:
        v.fail(what + ': gives up')
        return None
    if ds is None or None in ds or w.h.pc != TRUE:
        v.und = True
        return None
    out = {}
    for d in ds:
        if d[:2] in out: v.fail('%s: two %s sets of %s' % (what, d[1].lower(), d[0]))
        out[d[:2]] = d[2:]
    return out


def valid(ck, F, S):
    f = F.fn('Jali::Mesh::valid_region_name')
    ps = [p['n'] for p in f['params']]
    v = Verdict()
    for dim, sdim in ((2, 2), (3, 3), (2, 3), (1, 1), (1, 2)):
        for t, d, x in (('BOX', sdim, {}), ('PLANE', sdim - 1, {}), ('POINT', 0, {}), ('LOGICAL', 3, {'op': 'UNION', 'of': ('A',)}), ('LABELEDSET', 3, {'kind': 'CELL'}), ('LABELEDSET', 3, {'kind': 'Entity_kind::FACE'}), ('LABELEDSET', 3, {'kind': 'NODE'})):
            for kind in ('CELL', 'FACE', 'NODE'):
                for name in ('R', 'X'):
                    w = World(F, S, [('A', 'BOX', sdim, {}), ('R', t, d, x)], dim=sdim, mdim=dim)
                    r = w.h.see(f, MESH, {ps[0]: C(name), ps[1]: C(w.ek[kind])})
                    if t == 'LABELEDSET': want = x['kind'].split('::')[-1] == kind
                    elif kind == 'CELL': want = d >= dim or d == 0
                    elif kind == 'FACE': want = d >= dim - 1
                    else: want = True
                    want = want and name == 'R'
                    v.n += 1
                    if r not in (TRUE, FALSE): v.und = True
                    elif (r == TRUE) != want: v.fail('%s set of a region %s of dimension %d%s in %d dimensions is %svalid' % (kind.lower(), t.lower(), d, ' of %s' % x['kind'] if 'kind' in x else '', dim, '' if r == TRUE else 'not '))
    v.done(ck, 'region names are valid for the kinds of sets that can be built', f, 'valid')


def found(ck, F, S):
    """the set of a region by name and kind, made on request only"""
    rs = [(n, 'BOX', 3, {}) for n in 'ABD'] + [('P', 'PLANE', 2, {})]
    tab = dict(tables(), P=['n0', 'n1'])
    for f in F.fns('Jali::Mesh::find_meshset_from_region'):
        v = Verdict()
        ps = [p['n'] for p in f['params']]
        for pre in ([], [('A', 'CELL')], [('A', 'NODE'), ('B', 'CELL'), ('A', 'CELL')], [('B', 'NODE'), ('A', 'FACE')]):
            for name in ('A', 'B', 'P', 'X'):
                for kind in ('CELL', 'FACE', 'NODE'):
                    for make in ((False, True) if len(ps) > 2 else (False,)):
                        w = World(F, S, rs, tables=tab)
                        made = {q: w.build(*q) for q in pre}
                        args = {ps[0]: C(name), ps[1]: C(w.ek[kind])}
                        if len(ps) > 2: args[ps[2]] = TRUE if make else FALSE
                        r = w.h.call(f, MESH, args)
                        what = '%s set of %s with the sets %s%s' % (kind.lower(), name, pre, ', to be made if missing' if make else '')
                        n = len(made)
                        v.n += 1
                        if (name, kind) in made:
                            if r != made[name, kind]: v.fail(what + ': another set' if r and r[0] == 'new' else what + ': not found')
                        elif make and name != 'X' and (name, kind) != ('P', 'CELL'):
                            ids = TAB[name][kind] if name != 'P' else [0, 1] if kind == 'NODE' else [0]
                            v.same(w, r, name, kind, ids, what)
                            n += 1
                        elif r and r[0] == 'new': v.fail(what + ': a set is found')
                        reg = w.sets()
                        if reg is None or w.h.pc != TRUE: v.und = True
                        elif len(reg) != n: v.fail('%s: %d sets, not %d' % (what, len(reg), n))
        v.done(ck, 'the set of a region is found by name and kind%s' % (', and made if asked' if len(ps) > 2 else ''), f, 'found:%d' % len(ps))


def contains_point(ck, F):
    """which cell a point lies in"""
    f = F.fn('Jali::Mesh::point_in_cell')
    for t in meshes.topologies() + meshes.large():
        w = meshes.World(F, t, geometry=False)
        w.build()
        big = [tuple(420 * x for x in p) for p in t.coords]
        w.sym = {n: [C(x) for x in p] for n, p in enumerate(big)}
        bad, und, n = None, False, 0
        for c in range(t.nc):
            hull = [[big[i] for i in (t.faces[x] if d > 0 else t.faces[x][::-1])] for x, d in zip(t.cfaces[c], t.cdirs[c])]
            if any(s > 0 for p in (big[i] for i in t.cnodes[c]) for s in behind(t, p, hull, big, c)): continue    # not convex
            m = [sum(big[i][k] for i in t.cnodes[c]) // len(t.cnodes[c]) for k in range(t.sdim)]
            pts = [m] + [[m[k] + (sum(p[k] for p in g) // len(g) - m[k]) * a // 10 for k in range(t.sdim)] for g in hull for a in ((7, 13, 60) if t.dim < 3 else (8, 15))]
            if t.dim == 1: pts += [list(big[i]) for i in t.cnodes[c]]
            for q in pts:
                s = behind(t, q, hull, big, c)
                if 0 in s and t.dim > 1: continue
                n += 1
                r = w.q(f, ('obj', ('sym', 'asked'), ((c25.D, C(t.sdim)), (c25.X, lst(tuple(C(x) for x in q + [0] * (3 - t.sdim)))))), c)
                want = all(x <= 0 for x in s)
                if w.I.final.pc == FALSE: bad = bad or 'cell %d: it does not answer' % c
                elif r not in (TRUE, FALSE, C(0), C(1)): und = True
                elif (r in (TRUE, C(1))) != want: bad = bad or 'the point %s of a cell with the corners %s is %s' % (tuple(q), [big[i] for i in t.cnodes[c]], 'outside' if want else 'inside')
        ck.count('evaluations', n)
        ck.ob('a point lies in a cell when it is behind all its faces (%s)' % t.name, False if bad else None if und or not n else True, at(f), bad or '', 'point_in_cell')


def behind(t, q, hull, X, c):
    """on which side of every face of the cell: negative behind it"""
    if t.dim == 1:
        a, b = (X[i][0] for i in t.cnodes[c])
        return [min(a, b) - q[0], q[0] - max(a, b)]
    if t.dim == 2:
        p = [X[i] for i in t.cnodes[c]]
        return [-((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) for a, b in zip(p, p[1:] + p[:1])]
    return [s for g in hull for s in c18.sides(q, g)]
