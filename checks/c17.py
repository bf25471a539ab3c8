"""C17: materials, the cells they are in and the vectors that hold values for them stay in step."""
import itertools, random
from .common import *
from .objs import *
from . import c13

RULE = ('A state manager over a mesh of owned, ghost and boundary ghost representative cells is taken through additions and removals of materials and additions of cells, from every '
        'small start (materials with and without mesh sets of their name, multi-material vectors made before and after). After each change the material queries by number, name and '
        'cell, the cell sets and the rows of every multi-material vector (their lengths, order and the values held before) must be those of the plain relation between materials and cells.')
S_ = 'Jali::State::'
ST = mk(('new', 900, 'Jali::State'))
MESH = mk(('new', 901, 'Jali::Mesh'))
TILE = mk(('new', 902, 'Jali::MeshTile'))
PAT = 'OOOGGB'


class World:
    def __init__(self, ck, F):
        self.ck, self.F = ck, F
        self.S = c13.Sets(F)
        hooks = self.S.hooks(PAT)
        et, old = self.S.et, hooks['Jali::Mesh::num_entities']

        def num(I, st, e):
            k = argterm(I, e, 1, st)
            return C(len(PAT)) if is_num(k) and k[1] == et['ALL'] else old(I, st, e)
        hooks['Jali::Mesh::num_entities'] = num
        self.h0 = Heap(F, hooks=hooks, depth=10)
        c = [f for f in F.fns(S_ + 'State') if len(f['params']) == 1 and f['kind'] == 'ctor']
        if len(c) != 1: raise AnalysisError('constructor of the state manager not found')
        self.CELL = F.enum('Jali::Entity_kind')['CELL']
        self.NODE = F.enum('Jali::Entity_kind')['NODE']
        self.ALL = F.enum('Jali::Entity_type')['ALL']
        fs = [f for f in F.fns('Jali::Mesh::sets')]
        ms = [x for x in F.cls('Jali::Mesh')['fields'] if 'vector<std::shared_ptr<Jali::MeshSet>' in x['t']]
        if len(ms) != 1: raise AnalysisError('the list of mesh sets not found')
        self.h0.m[mk(('fld', MESH, 'Jali::Mesh::' + ms[0]['n']))] = EMPTY
        self.h0.call(c[0], ST, {c[0]['params'][0]['n']: MESH})
        self.f = {n: F.fn(S_ + n) for n in ('add_material', 'rem_material', 'add_cells_to_material', 'rem_material_by_name')}
        self.q = {n: F.fn(S_ + n) for n in ('num_materials', 'material_name', 'material_index_by_name', 'material_set', 'num_material_cells', 'material_cells', 'num_cell_materials',
                                            'cell_materials', 'material_set_by_name', 'cell_index_in_material')}
        self.find = F.fns('Jali::Mesh::find_meshset')
        self.n = 0

    def ask(self, h, n, *a):
        self.n += 1
        f = self.q[n]
        return h.see(f, ST, {p['n']: (C(x) if not isinstance(x, tuple) else x) for p, x in zip(f['params'], a)})

    def op(self, h, n, *a):
        self.n += 1
        f = self.f[n]
        h.call(f, ST, {p['n']: lst_of(x) if isinstance(x, list) else C(x) for p, x in zip(f['params'], a)})

    def vector(self, h, cls, dom, domt, name):
        fs = [f for f in self.F.fns(S_ + 'add') if cls in f['ret'] and ('Jali::' + domt + '>') in f['ret'] and len(f['params']) == 4]
        if not fs: raise AnalysisError('no addition of %s on %s instantiated' % (cls, domt))
        f = fs[0]
        r = h.call(f, ST, dict(zip([p['n'] for p in f['params']], [C(name), dom, C(self.CELL), C(self.ALL)])))
        l = loc_of(r) or r
        return l[1] if l[0] == 'deref' else l

    def data(self, h, v):
        """where the values of a vector are"""
        fs = [m for c in [exact_cls(v)] for m in self.F.classes[c]['methods'] if m['n'] == 'get_data']
        f = self.F.funcs[fs[0]['usr']]
        return ('deref', h.see(f, v))

    def existing(self, h, name, kind, O, G, rev):
        """a mesh set that is there before the materials"""
        p = mk(('new', 950 + len(name) * 3 + kind, 'Jali::MeshSet'))
        P = self.S.P
        h.call(self.S.ctor, p, {P['name'][0]: C(name), P['mesh'][0]: ('addr', ('deref', MESH)), P['kind'][0]: C(kind), P['list'][0]: lst_of(O), P['list'][1]: lst_of(G),
                                P['map'][0]: TRUE if rev else FALSE})
        l = next(k for k in h.m if k[0] == 'fld' and k[1] == MESH)
        h.m[l] = append(h.m[l], p)


def exact_cls(v): return v[2]


class Model:
    def __init__(self):
        self.mats = []      # [name, cells]
        self.rows = {}      # vector -> [{cell: value or None}]

    def copy(self):
        m = Model()
        m.mats = [(n, list(o), list(g)) for n, o, g in self.mats]
        m.rows = {v: [dict(r) for r in rs] for v, rs in self.rows.items()}
        m.sets = dict(self.sets)
        return m
    sets = {}

    def add(self, name, cells):
        if any(n == name for n, _, _ in self.mats): return
        O, G = self.sets.get(name, ([], []))
        O, G = list(O), list(G)
        for c in cells: self.put(O, G, c)
        self.mats.append((name, O, G))
        for v in self.rows: self.rows[v].append({c: None for c in O + G})

    def put(self, O, G, c):
        l = O if PAT[c] == 'O' else G if PAT[c] == 'G' else None
        if l is not None and c not in l: l.append(c)

    def rem(self, m):
        if m < 0 or m >= len(self.mats): return
        n, o, g = self.mats.pop(m)
        self.sets = dict(self.sets)
        self.sets[n] = (o, g)
        for v in self.rows: self.rows[v].pop(m)

    def cells(self, m, cs):
        n, O, G = self.mats[m]
        for c in cs: self.put(O, G, c)
        for v in self.rows:
            for c in O + G: self.rows[v][m].setdefault(c, None)


def num_of(t): return t[1] if t is not None and is_num(t) else None


def agree(W, h, M):
    """None: undecided; '' fine; else what is wrong"""
    n = len(M.mats)
    r = W.ask(h, 'num_materials')
    if num_of(r) is None: return None
    if r != C(n): return 'there are %s materials, not %d' % (r[1], n)
    allc = [o + g for _, o, g in M.mats]
    for m, (name, o, g) in enumerate(M.mats):
        want = o + g
        r = ints(W.ask(h, 'material_cells', m))
        if r is None: return None
        if r is False or r != want: return 'the cells of material %d are %s, not %s' % (m, r, want)
        s = W.ask(h, 'material_set', m)
        if s is None or s[0] != 'new': return None
        x = c13.agree(W.S, h, PAT, o, g, n=len(PAT), this=s)
        if x is None or x: return x if x is None else 'in the set of material %d %s' % (m, x)
        if W.ask(h, 'material_set_by_name', name) != s: return 'material_set_by_name(%s) is not the set of material %d' % (name, m)
        for q, a, w in (('material_name', m, C(name)), ('material_index_by_name', name, C(m)), ('num_material_cells', m, C(len(want)))):
            r = W.ask(h, q, a)
            if r is None or r[0] not in ('c', 'C') and not is_c(r): return None
            if r != w: return '%s(%s) is %s, not %s' % (q, a, show(r), show(w))
        for c in range(len(PAT) - 1):
            r = num_of(W.ask(h, 'cell_index_in_material', c, m))
            if r is None: return None
            w = want.index(c) if c in want else -1
            if r != w: return 'cell %d is at %s in material %d, not at %d' % (c, r, m, w)
    for q, a, w in (('material_index_by_name', 'nosuch', C(-1)), ('num_material_cells', n, C(0))):
        r = W.ask(h, q, a)
        if r is None or not is_num(r): return None
        if r != w: return '%s(%s) is %s, not %s' % (q, a, show(r), show(w))
    if W.ask(h, 'material_set_by_name', 'nosuch') != NULL: return 'there is a set for a material that does not exist'
    if n == 0 and ints(W.ask(h, 'material_cells', 0)) != []: return 'there are cells of a material when there are none'
    for c in range(len(PAT)):
        w = [m for m in range(n) if c in allc[m]]
        r = ints(W.ask(h, 'cell_materials', c))
        k = num_of(W.ask(h, 'num_cell_materials', c))
        if r is None or k is None: return None
        if r is False or sorted(r) != w: return 'the materials of cell %d are %s, not %s' % (c, r, w)
        if k != len(w): return 'cell %d has %d materials, not %d' % (c, k, len(w))
    for v, rows in M.rows.items():
        d = elems(h.m.get(mk(W.data(h, v)), ('unk',)))
        if d is None: return None
        nm = v[2].replace('Jali::', '')
        if len(d) != n: return '%s has %d rows for %d materials' % (nm, len(d), n)
        for m in range(n):
            e = elems(d[m])
            if e is None: return None
            if len(e) != len(allc[m]): return '%s has %d values for the %d cells of material %d' % (nm, len(e), len(allc[m]), m)
            for c, val in rows[m].items():
                if val is not None and e[allc[m].index(c)] != val: return '%s has lost the value of material %d in cell %d' % (nm, m, c)
    return ''


def fill(W, h, M, tag):
    """give every entry of every vector a value of its own"""
    for v, rows in M.rows.items():
        l = mk(W.data(h, v))
        out = []
        for m, r in enumerate(rows):
            cs = M.mats[m][1] + M.mats[m][2]
            vals = [('sym', 'v%s%d_%d' % (tag, m, c)) for c in cs]
            for c, x in zip(cs, vals): r[c] = x
            out.append(lst(tuple(vals)))
        h.m[l] = lst(tuple(out))


# every name begins another
MNAMES = ['metal_2', 'metal', 'met', 'metal_22', 'm']


def starts(W, ck):
    """states of materials and vectors, each with its model"""
    out = []
    cfg = [('', []), ('a', [[0, 3]]), ('b', [[3, 0], [1]]), ('c', [[1, 2], [2, 3], [0]]), ('d', [[0, 5, 4], [4, 0, 1]])]
    if ck.thorough: cfg += [('e', [[2], [1], [0]]), ('f', [[0, 1, 2, 3, 4], [0], [3, 4]]), ('g', [[4], [3, 1], [], [1]])]
    for tag, lists in cfg:
        for when in ((0,) if not lists else (0, len(lists))):
            h, M = W.h0.copy(), Model()
            vs = []

            def vectors():
                for cls, dom, domt, nm in (('MultiStateVector', MESH, 'Mesh', 'v'), ('MultiStateVector', TILE, 'MeshTile', 't'), ('UniStateVector', MESH, 'Mesh', 'u')):
                    v = W.vector(h, cls, dom, domt, nm)
                    if cls.startswith('Multi'): M.rows[v] = [{c: None for c in o + g} for _, o, g in M.mats]
            for i, l in enumerate(lists):
                if i == when: vectors()
                W.op(h, 'add_material', MNAMES[i], l)
                M.add(MNAMES[i], l)
            if when >= len(lists): vectors()
            out.append(('%d materials, vectors made %s' % (len(lists), 'first' if when == 0 else 'last'), h, M))
    return out


def history(ck, F, bad, und):
    """many changes of many materials of a larger mesh"""
    global PAT
    old, PAT = PAT, 'OOGOOOGGOOGOOGOOGOGGOOB'
    try:
        R = random.Random(3)
        for k in range(4 if ck.thorough else 2):
            W = World(ck, F)
            h, M = W.h0.copy(), Model()
            h.unroll = 120
            ctx = []
            for step in range(16):
                if step == 2:
                    for cls, dom, domt, nm in (('MultiStateVector', MESH, 'Mesh', 'v'), ('MultiStateVector', TILE, 'MeshTile', 't'), ('UniStateVector', MESH, 'Mesh', 'u')):
                        v = W.vector(h, cls, dom, domt, nm)
                        if cls.startswith('Multi'): M.rows[v] = [{c: None for c in o + g} for _, o, g in M.mats]
                n = len(M.mats)
                l = R.sample(range(len(PAT)), R.choice((1, 6, 11, 15)))
                what = 'add' if n < 2 or step in (3, 4, 5, 6, 7) else R.choice(('add', 'rem', 'cells', 'cells', 'name'))
                if what == 'add':
                    nm = 'material_%d' % (step % 11)
                    W.op(h, 'add_material', nm, l); M.add(nm, l); ctx.append('add_material(%s, %s)' % (nm, l))
                elif what == 'rem':
                    m = R.randrange(n)
                    W.op(h, 'rem_material', m); M.rem(m); ctx.append('rem_material(%d)' % m)
                elif what == 'name':
                    m = R.randrange(n)
                    nm = M.mats[m][0]
                    W.op(h, 'rem_material_by_name', nm); M.rem(m); ctx.append('rem_material_by_name(%s)' % nm)
                else:
                    m = R.randrange(n)
                    W.op(h, 'add_cells_to_material', m, l); M.cells(m, l); ctx.append('add_cells_to_material(%d, %s)' % (m, l))
                r = agree(W, h, M)
                if r is None: und['history'] = und.get('history', 0) + 1; break
                if r: bad.setdefault('history', 'after %s: %s' % ('; '.join(ctx), r)); break
                fill(W, h, M, 's%d_' % step)
    finally: PAT = old


def check():
    ck = Check('C17', RULE)
    ck.bounds()
    F = ck.load('mesh', 'state', 'state_w')
    W = World(ck, F)
    fa, fr, fc = W.f['add_material'], W.f['rem_material'], W.f['add_cells_to_material']
    und = {}
    bad = {}

    def see(key, ctx, h, M):
        r = agree(W, h, M)
        if r is None: und[key] = und.get(key, 0) + 1
        elif r: bad.setdefault(key, '%s: %s' % (ctx, r))
        return r == ''
    ss = starts(W, ck)
    ok = []
    for ctx, h, M in ss:
        if see('start', ctx, h, M):
            fill(W, h, M, 'x')
            ok.append((ctx, h, M))
    ck.count('starts', len(ss))
    lists = [[], [0], [3], [2, 1], [4, 2], [5], [0, 3], [1, 5, 4]]
    if ck.thorough: lists += [list(x) for x in itertools.permutations(range(len(PAT)), 2)] + [[0, 3, 1, 4], [4, 3, 2, 1, 0]]
    after = []
    for ctx, h0, M0 in ok:
        for l in lists:
            h, M = h0.copy(), M0.copy()
            W.op(h, 'add_material', 'new', l)
            M.add('new', l)
            if see('add', '%s, add_material of %s' % (ctx, l), h, M) and l in ([4, 2], [0, 3]): after.append(('%s, then material %s added' % (ctx, l), h, M))
        if M0.mats:
            h, M = h0.copy(), M0.copy()
            W.op(h, 'add_material', MNAMES[0], [1, 4])
            see('again', '%s, add_material of a name in use' % ctx, h, M)
        for m in list(range(len(M0.mats))) + [len(M0.mats), len(M0.mats) + 1]:
            h, M = h0.copy(), M0.copy()
            W.op(h, 'rem_material', m)
            M.rem(m)
            if see('rem', '%s, rem_material(%d)' % (ctx, m), h, M): after.append(('%s, then material %d removed' % (ctx, m), h, M))
        for nm in [MNAMES[i] for i in range(len(M0.mats))] + ['nosuch']:
            h, M = h0.copy(), M0.copy()
            W.op(h, 'rem_material_by_name', nm)
            M.rem(next((i for i, x in enumerate(M.mats) if x[0] == nm), -1))
            see('remname', '%s, rem_material_by_name(%s)' % (ctx, nm), h, M)
        for m in range(len(M0.mats)):
            for l in lists:
                h, M = h0.copy(), M0.copy()
                W.op(h, 'add_cells_to_material', m, l)
                M.cells(m, l)
                if see('cells', '%s, cells %s added to material %d' % (ctx, l, m), h, M) and l in ([4, 2], [2, 1]): after.append(('%s, then %s added to %d' % (ctx, l, m), h, M))
    # a second change after the first
    for ctx, h0, M0 in after if ck.thorough else after[::3]:
        fill(W, h0, M0, 'y')
        for l in ([1, 3],):
            h, M = h0.copy(), M0.copy()
            W.op(h, 'add_material', 'm1', l)
            M.add('m1', l)
            see('second', '%s, add_material m1 %s' % (ctx, l), h, M)
        for m in range(len(M0.mats)):
            h, M = h0.copy(), M0.copy()
            W.op(h, 'rem_material', m)
            M.rem(m)
            see('second', '%s, rem_material(%d)' % (ctx, m), h, M)
            h, M = h0.copy(), M0.copy()
            W.op(h, 'add_cells_to_material', m, [0, 4])
            M.cells(m, [0, 4])
            see('second', '%s, cells [0, 4] added to material %d' % (ctx, m), h, M)
    # materials named like mesh sets that are there
    for ctx, h0, M0 in [x for x in ok if len(x[2].mats) in (0, 2)]:
        for O, G in (([0, 2], [3]), ([1], []), ([], [])):
            for rev in (True, False):
                h, M = h0.copy(), M0.copy()
                W.existing(h, 'new', W.NODE, [1], [], True)
                W.existing(h, 'new', W.CELL, O, G, rev)
                M.sets = {'new': (O, G)}
                for l in ([0, 4], [3, 1], []):
                    h1, M1 = h.copy(), M.copy()
                    W.op(h1, 'add_material', 'new', l)
                    M1.add('new', l)
                    see('existing', '%s, add_material of %s with a mesh set of that name and cells %s' % (ctx, l, O + G), h1, M1)
    history(ck, F, bad, und)
    for key, f, what in (('start', fa, 'materials added one after the other, and vectors made before and after them, agree with the cell sets'),
                         ('add', fa, 'adding a material adds its cells, its place in each cell and a row to each vector'),
                         ('again', fa, 'adding a material under a name in use changes nothing'),
                         ('rem', fr, 'removing a material removes it from its cells and vectors, and renumbers those after it'),
                         ('remname', W.f['rem_material_by_name'], 'removing a material by name removes that one'),
                         ('cells', fc, 'adding cells to a material adds those not in it, and keeps the values there'),
                         ('second', fc, 'a second change leaves materials, cells and vectors in step'),
                         ('history', fr, 'materials of many cells and vectors stay in step through many changes'),
                         ('existing', fa, 'a material named like a cell set of the mesh has the cells of that set and those given')):
        ck.ob(what, False if key in bad else None if key in und else True, at(f), bad.get(key, '%d cases not decided' % und.get(key, 0)), key)
    ck.count('evaluations', W.n)
    ck.need(W.n, 2000, 'evaluations of material operations and queries')
    return ck.finish()
