"""C18: regions select the points they describe; models and domains hold what was put into them."""
import itertools
from fractions import Fraction
from .objs import *
from . import alg, c25

RULE = ('For free coordinates, the condition under which each point query of regions and cells holds is derived from the source as a formula over comparisons, and decided for every arrangement of '
        'representative points: order types of a coordinate against the corners of a box, points on and off planes and points, inside, outside and beyond every edge or facet of polygons and polyhedra. '
        'Queries with a point of another dimension, and of regions that describe no points, must give an error. Constructors, copies and getters must give back what was put in, and models and domains '
        'find, count and refuse as their dimension demands.')
G = 'JaliGeometry::'
R = mk(('new', 900, G + 'X'))
STR = {'name': C('nm'), 'id': C(7)}


def obj(i, c): return mk(('new', i, G + c))


def ctor(F, c, pred=None):
    fs = [f for f in F.fns(G + c + '::' + c) if f['kind'] == 'ctor' and (pred is None or pred(f))]
    if len(fs) != 1: raise AnalysisError('constructor of %s: %d found' % (c, len(fs)))
    return fs[0]


def make(F, h, c, this, pts, life=0, extra=None):
    """calls the constructor of a region; pts: point values"""
    f = ctor(F, c, None if c != 'LogicalRegion' else extra.pop('pred'))
    ps, pts, extra = {}, list(pts), list((extra or {}).get('args', []))
    strs = [C('nm')]
    for i, p in enumerate(f['params']):
        t = noref(p['t']).replace('const ', '')
        if t == G + 'Point': ps[p['n']] = pts.pop(0)
        elif i == 0: ps[p['n']] = C('nm')
        elif i == 1: ps[p['n']] = C(7)
        elif 'LifeCycle' in t: ps[p['n']] = C(life)
        else: ps[p['n']] = extra.pop(0)
    h.call(f, this, ps)


def check():
    ck = Check('C18', RULE)
    ck.bounds()
    F = ck.load('geometry')
    boxes(ck, F)
    planes(ck, F)
    points(ck, F)
    nopoints(ck, F)
    getters(ck, F)
    models(ck, F)
    domains(ck, F)
    polygon(ck, F)
    polyhed(ck, F)
    return ck.finish()


def inside(F, c, pts, d, q):
    """(condition, heap): when the query point q of dimension dq lies in the region"""
    h = Heap(F, depth=10)
    r = obj(900, c)
    make(F, h, c, r, pts)
    pc0 = h.pc
    f = F.fn(G + c + '::inside')
    h2 = h.copy()
    v = h2.call(f, r, {f['params'][0]['n']: q})
    return v, h, h2, f


def env_of(**kw):
    out = {}
    for n, xs in kw.items():
        for i, x in enumerate(xs): out[mk(('sym', '%s%d' % (n, i)))] = Fraction(x)
    return out


def decide(ck, f, cond, cases, what, key):
    """cases: (env, wanted, text)"""
    bad = None
    n = 0
    und = cond is None
    if not und:
        for env, w, text in cases:
            n += 1
            try:
                g = alg.holds(truth(cond) if cond[0] != 'B' and cond not in (TRUE, FALSE) else cond, env)
            except alg.Undecided as e:
                und = True
                break
            if g != w: bad = bad or '%s is %s' % (text, 'inside' if g else 'outside')
    ck.count('arrangements', n)
    ck.ob(what, False if bad else None if und else True, at(f), bad or '', key)


def mismatch(ck, F, c, n, key):
    bad = und = None
    f = F.fn(G + c + '::inside')
    for d in (1, 2, 3):
        for dq in (1, 2, 3):
            if d == dq: continue
            v, h, h2, f = inside(F, c, [c25.value('ab'[i], d) for i in range(n)], d, c25.value('x', dq))
            if h2.pc == TRUE: bad = bad or 'a point of %d dimensions is looked up in a region of %d' % (dq, d)
            elif h2.pc != FALSE and h.pc == TRUE: und = True
    ck.ob('a point of another dimension than the %s is an error' % key, False if bad else None if und else True, at(f), bad or '', 'mismatch:' + key)


def boxes(ck, F):
    E, E2 = Fraction(1, 1000), Fraction(1, 10 ** 12)     # outside; off by rounding
    one = []
    for a, b in ((0, 1), (1, 0), (0, 0), (-2, 3)):
        lo, hi = min(a, b), max(a, b)
        for x, w in ((lo - E, 0), (lo, 1), (lo - E2, 1), ((lo + hi) / Fraction(2), 1), (hi, 1), (hi + E2, 1), (hi + E, 0), (lo - 5, 0), (hi + 5, 0)): one.append((a, b, x, bool(w)))
    for d in (1, 2, 3):
        v, h, h2, f = inside(F, 'BoxRegion', [c25.value('a', d), c25.value('b', d)], d, c25.value('x', d))
        combos = itertools.product(one, repeat=d) if d < 3 else (t for t in itertools.product(one[::2] + [one[2], one[14 + 5]], repeat=3))
        cases = ((env_of(a=[t[0] for t in c], b=[t[1] for t in c], x=[t[2] for t in c]), all(t[3] for t in c),
                  'point (%s) of the box %s to %s' % (', '.join(str(t[2]) for t in c), tuple(t[0] for t in c), tuple(t[1] for t in c))) for c in combos)
        decide(ck, f, v, cases, 'a box in %d dimensions has exactly the points between its corners' % d, 'box:%d' % d)
    mismatch(ck, F, 'BoxRegion', 2, 'box')
    # dimension
    bad = und = None
    f = ctor(F, 'BoxRegion')
    g = F.fn(G + 'Region::dimension')
    deg = F.fn(G + 'BoxRegion::is_degenerate')
    h = None
    for d in (2, 3):
        h = Heap(F, depth=10, unroll=8)
        r = obj(900, 'BoxRegion')
        make(F, h, 'BoxRegion', r, [c25.value('a', d), c25.value('b', d)])
        v = h.see(g, r)
        h3 = h.copy()
        out = ('sym', 'N')
        h3.m[out] = ('sym', 'before')
        dv = h3.call(deg, r, {deg['params'][0]['n']: ('addr', out)})
        nd = h3.m[out]
        for flat in itertools.product((0, 1), repeat=d):
            env = env_of(a=[0] * d + [7] * (3 - d), b=[1 - x for x in flat] + [7] * (3 - d))
            env[('sym', 'before')] = Fraction(17)
            try:
                if alg.value(v, env) != d - sum(flat): bad = 'a box flat in %d of %d directions has dimension %s' % (sum(flat), d, alg.value(v, env))
                if alg.value(nd, env) != sum(flat): bad = 'is_degenerate counts %s of %d flat directions' % (alg.value(nd, env), sum(flat))
                if bool(alg.value(dv, env)) != bool(sum(flat)): bad = 'is_degenerate is %s for %d flat directions' % (alg.value(dv, env), sum(flat))
            except alg.Undecided: und = True
    ck.ob('the dimension of a box is the number of directions it extends in', False if bad else None if und else True, at(f), bad or '', 'box:dimension')
    bad = und = None
    for d, e in ((2, 3), (3, 2), (1, 2)):
        h = Heap(F, depth=10)
        make(F, h, 'BoxRegion', obj(900, 'BoxRegion'), [c25.value('a', d), c25.value('b', e)])
        if h.pc == TRUE: bad = 'corners of %d and %d dimensions are taken' % (d, e)
        h = Heap(F, depth=10)
        make(F, h, 'PlaneRegion', obj(900, 'PlaneRegion'), [c25.value('a', d), c25.value('b', e)])
        if h.pc == TRUE: bad = 'a point and a normal of %d and %d dimensions are taken' % (d, e)
    ck.ob('boxes and planes given by points of different dimensions are an error', False if bad else True, at(f), bad or '', 'box:corners')


def planes(ck, F):
    for d in (1, 2, 3):
        v, h, h2, f = inside(F, 'PlaneRegion', [c25.value('a', d), c25.value('b', d)], d, c25.value('x', d))
        cases = []
        for n in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -2, 3), (-1, 2, 0), (-3, 0, 2), (2, 2, 2)):
            if not any(n[:d]): continue
            for p in ((0, 0, 0), (1, 2, 3), (-1, 5, 2)):
                for t in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, -1, 4)):
                    # a point of the plane: p + t - (t.n / n.n) n
                    n_, p_, t_ = n[:d], p[:d], t[:d]
                    k = Fraction(sum(x * y for x, y in zip(n_, t_)), sum(x * x for x in n_))
                    q = [Fraction(p_[i]) + t_[i] - k * n_[i] for i in range(d)]
                    cases.append((env_of(a=p_, b=n_, x=q), True, 'the point %s of the plane' % (tuple(map(str, q)),)))
                    for s in (Fraction(1, 10 ** 14), Fraction(-1, 10 ** 14)):
                        cases.append((env_of(a=p_, b=n_, x=[q[i] + s * n_[i] for i in range(d)]), True, 'a point off by rounding from the plane with normal %s' % (n_,)))
                    for s in (Fraction(1, 1000), -1, Fraction(-1, 1000), 3):
                        cases.append((env_of(a=p_, b=n_, x=[q[i] + s * n_[i] for i in range(d)]), False, 'a point %s normals off the plane with normal %s' % (s, n_)))
        decide(ck, f, v, cases, 'a plane in %d dimensions has exactly the points orthogonal to its normal' % d, 'plane:%d' % d)
    mismatch(ck, F, 'PlaneRegion', 2, 'plane')


def points(ck, F):
    for d in (1, 2, 3):
        v, h, h2, f = inside(F, 'PointRegion', [c25.value('a', d)], d, c25.value('x', d))
        cases = []
        for p in ((0, 0, 0), (1, -2, 3)):
            for off in itertools.product((0, Fraction(1, 10 ** 14)), repeat=d):
                cases.append((env_of(a=p[:d], x=[p[i] - off[i] for i in range(d)]), True, 'a point off by rounding'))
            for off in itertools.product((0, 1, -1, Fraction(1, 1000)), repeat=d):
                cases.append((env_of(a=p[:d], x=[p[i] + off[i] for i in range(d)]), not any(off), 'a point %s away' % (tuple(map(str, off)),)))
        decide(ck, f, v, cases, 'a point region in %d dimensions has exactly its point' % d, 'point:%d' % d)
    mismatch(ck, F, 'PointRegion', 1, 'point')


OPS = {'Complement': 'COMPLEMENT', 'Union': 'UNION', 'Intersect': 'INTERSECT', 'Subtract': 'SUBTRACT'}


def logical(F, s, names):
    if isinstance(s, str): return {'pred': lambda f: 'string' in f['params'][2]['t'], 'args': [C(s), names]}
    return {'pred': lambda f: 'Bool_type' in f['params'][2]['t'], 'args': [C(s), names]}


def nopoints(ck, F):
    bt = F.enum(G + 'Bool_type')
    nm = lst((C('A'), C('B')))
    for c, x in (('LogicalRegion', logical(F, bt['UNION'], nm)), ('LabeledSetRegion', {'args': [C('CELL'), C('file'), C('fmt'), C('lab')]})):
        h = Heap(F, depth=10)
        make(F, h, c, obj(900, c), [], extra=x)
        f = F.fn(G + c + '::inside')
        h.call(f, obj(900, c), {f['params'][0]['n']: c25.value('x', 2)})
        ck.ob('asking %s for points is an error' % c, h.pc == FALSE, at(f), 'no error is raised', 'nopoints:' + c)
    bad = und = None
    f = ctor(F, 'LogicalRegion', logical(F, 'x', nm)['pred'])
    g = F.fn(G + 'LogicalRegion::operation')
    for s in list(OPS) + ['', 'union', 'Minus']:
        h = Heap(F, depth=10)
        make(F, h, 'LogicalRegion', obj(900, 'LogicalRegion'), [], extra=logical(F, s, nm))
        if s in OPS:
            v = h.see(g, obj(900, 'LogicalRegion')) if h.pc == TRUE else None
            if v is None or not is_num(v): und = True if h.pc != FALSE else und; bad = bad or ('%s is refused' % s if h.pc == FALSE else None)
            elif v[1] != bt[OPS[s]]: bad = '%s becomes operation %s' % (s, v[1])
        elif h.pc == TRUE: bad = 'the unknown operation "%s" is taken' % s
    ck.ob('the operation of a logical region is the one named', False if bad else None if und else True, at(f), bad or '', 'operation')


def point_at(h, I, t):
    """the components of a point given by value or by reference"""
    if t is None: return None
    if t[0] == 'addr': d, x = (I.read(I.final, mk(('fld', t, n))) for n in (c25.D, c25.X))
    else: d, x = I.fieldof(t, c25.D), I.fieldof(t, c25.X)
    if not is_num(d): return None
    return [index(x, C(i)) for i in range(d[1])]


def within(l, o):
    return l == o or isinstance(l, tuple) and any(within(x, o) for x in l)


def getters(ck, F):
    lc, rt, bt = F.enum(G + 'LifeCycle_type'), F.enum(G + 'Region_type'), F.enum(G + 'Bool_type')
    nm = lst((C('A'), C('B')))
    syms = lambda n, d: [mk(('sym', '%s%d' % (n, i))) for i in range(d)]
    table = {'BoxRegion': (2, {'point0': ('p', 'a'), 'point1': ('p', 'b'), 'type': ('n', rt['BOX'])}, {}),
             'PlaneRegion': (2, {'point': ('p', 'a'), 'normal': ('p', 'b'), 'type': ('n', rt['PLANE']), 'dimension': ('d', -1)}, {}),
             'PointRegion': (1, {'point': ('p', 'a'), 'type': ('n', rt['POINT']), 'dimension': ('n', 0)}, {}),
             'LogicalRegion': (0, {'operation': ('n', bt['SUBTRACT']), 'component_regions': ('t', nm), 'type': ('n', rt['LOGICAL'])}, lambda: logical(F, bt['SUBTRACT'], nm)),
             'LabeledSetRegion': (0, {'label': ('t', C('lab')), 'entity_str': ('t', C('CELL')), 'type': ('n', rt['LABELEDSET'])}, lambda: {'args': [C('CELL'), C('file'), C('fmt'), C('lab')]})}
    for c, (n, want, x) in table.items():
        want = dict(want, name=('t', C('nm')), id=('n', 7))
        bad = und = None
        done = 0
        fc = None
        for d in (2, 3):
            for life in lc.values():
                h = Heap(F, depth=10)
                r = obj(900, c)
                make(F, h, c, r, [c25.value('ab'[i], d) for i in range(n)], life, x() if callable(x) else {})
                for o, what in [(r, 'region')]:
                    for g, (k, w) in dict(want, lifecycle=('n', life)).items():
                        fs = [f for f in F.fns(G + c + '::' + g) + F.fns(G + 'Region::' + g) if not f['params']]
                        if not fs: und = True; continue
                        h2 = h.copy()
                        v = h2.call(fs[0], o)
                        done += 1
                        if h2.pc != TRUE: und = True; continue
                        if k == 'p':
                            got = point_at(h2, h2.I, v)
                            if got is None: und = True
                            elif got != syms(w, d): bad = bad or '%s() of the %s is %s' % (g, what, short(lst(tuple(got))))
                            continue
                        if v is not None and v[0] == 'addr': v = h2.I.read(h2.I.final, v[1])
                        w2 = C(w) if k == 'n' else C(d + w) if k == 'd' else w
                        if v is None: und = True
                        elif mk(v) != mk(w2): bad = bad or '%s() of the %s is %s' % (g, what, short(v))
                fc = fc or ctor(F, c, x()['pred'] if c == 'LogicalRegion' else None)
        ck.ob('%s gives back what it was made from' % c, False if bad else None if und or not done else True, at(fc), bad or '', 'getters:' + c)
        # copies
        bad = und = None
        cp = [f for f in F.fns(G + c + '::' + c) if f['kind'] == 'copyctor']
        base = [f for f in F.fns(G + 'Region::Region') if f['kind'] == 'copyctor']
        for f in cp:
            h = Heap(F, depth=10)
            r2 = obj(901, c)
            src = mk(('pref', f['params'][0]['n']))
            # the source as an object of its own: the constructor's fields under the parameter
            h0 = Heap(F, depth=10)
            make(F, h0, c, r2, [c25.value('ab'[i], 3) for i in range(n)], lc['TEMPORARY'], x() if callable(x) else {})
            m2 = {}
            for l, v in h0.m.items():
                if within(l, r2): h.m[mk(subst(('load', l), {r2: ('addr', src)}))[1]] = v
            h.call(f, obj(902, c), {})
            miss = []
            for l, v in h0.m.items():
                if not within(l, r2) or l[0] != 'fld' or l[2] == c25.X: continue
                n2 = l[2].split('::')[-1]
                l2 = mk(subst(('load', l), {r2: obj(902, c)}))[1]
                if l[2] == c25.D:
                    p, p2 = point_at(h0, h0.I, l[1]), point_at(h, h.I, l2[1])
                    n2 = l[1][1][2].split('::')[-1]
                    if p is None: und = True
                    elif p != p2: miss.append(n2)
                elif h.m.get(l2) is None or h.I.read(h.I.final, l2) != v: miss.append(n2)
            if miss: bad = bad or 'does not copy %s' % ', '.join(sorted(miss))
        if cp: ck.ob('a copy of a %s describes the same region' % c, False if bad else None if und else True, at(cp[0]), bad or '', 'copy:' + c)


IDS, NAMES = (12, 10, 11, 17) + tuple(range(20, 33)), ('reg1', 'reg', 'reg12', 'eg1') + tuple('r%d' % i for i in range(13))


def regs(F, h, dims):
    f = [f for f in F.fns(G + 'Region::Region') if len(f['params']) == 4][0]
    out = []
    for i, d in enumerate(dims):
        r = obj(910 + i, 'BoxRegion')
        h.call(f, r, dict(zip([p['n'] for p in f['params']], [C(NAMES[i]), C(IDS[i]), C(d), C(0)])))
        out.append(r)
    return out


def see_list(h, F, o, num, ith):
    n = h.see(F.fn(num), o)
    if n is None or not is_num(n): return None
    g = F.fn(ith)
    out = [h.see(g, o, {g['params'][0]['n']: C(i)}) for i in range(n[1])]
    return out


def models(ck, F):
    GMc = G + 'GeometricModel'
    cs = F.fns(GMc + '::GeometricModel')
    c1 = next(f for f in cs if len(f['params']) == 1 and f['kind'] == 'ctor')
    c2 = next((f for f in cs if len(f['params']) == 2), None)
    cc = next((f for f in cs if f['kind'] == 'copyctor'), None)
    add_ = F.fn(GMc + '::Add_Region')
    o = obj(900, 'GeometricModel')
    bad = und = None
    for d in range(0, 5):
        h = Heap(F, depth=10)
        h.call(c1, o, {c1['params'][0]['n']: C(d)})
        if (h.pc == TRUE) != (d in (2, 3)): bad = 'a model of %d dimensions is %s' % (d, 'taken' if h.pc == TRUE else 'refused')
        if h.pc == TRUE and h.see(F.fn(GMc + '::dimension'), o) != C(d): bad = 'a model of %d dimensions has %s' % (d, short(h.see(F.fn(GMc + '::dimension'), o)))
    ck.ob('geometric models have two or three dimensions', False if bad else True, at(c1), bad or '', 'model:dim')
    bad = und = None
    find = {('string' in f['params'][0]['t']): f for f in F.fns(GMc + '::FindRegion')}
    for dims in ((), (2,), (1, 2, 0), (2, 1, 2), (2, 1, 0) * 5):
        for way in ('add', 'list', 'copy'):
            h = Heap(F, depth=10, unroll=40)
            rs = regs(F, h, dims)
            oo = o
            if way == 'list':
                if not c2: continue
                h.call(c2, o, {c2['params'][0]['n']: C(2), c2['params'][1]['n']: lst(tuple(rs)) if rs else EMPTY})
            else:
                h.call(c1, o, {c1['params'][0]['n']: C(2)})
                for r in rs: h.call(add_, o, {add_['params'][0]['n']: r})
            if way == 'copy':
                if not cc: continue
                h2 = Heap(F, depth=10, unroll=40, m={l: v for l, v in h.m.items() if root(l) != o})
                src = mk(('addr', ('pref', cc['params'][0]['n'])))
                for l, v in h.m.items():
                    if root(l) == o: h2.m[mk(subst(('load', l), {o: src}))[1]] = v
                oo = obj(901, 'GeometricModel')
                h2.call(cc, oo)
                h2.pc = h.pc
                h = h2
            got = see_list(h, F, oo, GMc + '::Num_Regions', GMc + '::Region_i')
            if h.pc != TRUE: bad = bad or 'regions of dimensions %s are refused (%s)' % (dims, way); continue
            if got is None or any(g is None for g in got): und = True; continue
            if got != rs: bad = bad or '%d regions put in (%s) come out as %s' % (len(rs), way, [short(g) for g in got])
            for i in range(len(rs) + 1):
                w = rs[i] if i < len(rs) else C(0)
                for isname, f in find.items():
                    v = h.see(f, oo, {f['params'][0]['n']: C(NAMES[i]) if isname else C(IDS[i])})
                    v = NULL if v == C(0) else v
                    if v is None or v[0] == 'ite': und = True
                    elif v != w and not (w == C(0) and v == NULL): bad = bad or 'looking for %s among %d regions gives %s' % (NAMES[i] if isname else IDS[i], len(rs), short(v))
    ck.ob('a model finds and lists the regions put into it', False if bad else None if und else True, at(add_), bad or '', 'model:regions')
    bad = None
    for d in (2, 3):
        for rd, before in itertools.product(range(4), ([], [1], [1, 2, 0])):
            h = Heap(F, depth=10)
            rs = regs(F, h, before + [rd])
            h.call(c1, o, {c1['params'][0]['n']: C(d)})
            for r in rs: h.call(add_, o, {add_['params'][0]['n']: r})
            if (h.pc == TRUE) != (rd <= d): bad = bad or 'a region of dimension %d is %s by a model of %d' % (rd, 'taken' if h.pc == TRUE else 'refused', d)
    ck.ob('a model refuses regions of more dimensions than it has', False if bad else True, at(add_), bad or '', 'model:refuse')


def domains(ck, F):
    DM = G + 'Domain'
    cs = F.fns(DM + '::Domain')
    c1 = next(f for f in cs if len(f['params']) == 1 and f['kind'] == 'ctor')
    c3 = next((f for f in cs if len(f['params']) == 3), None)
    cc = next((f for f in cs if f['kind'] == 'copyctor'), None)
    gm1 = next(f for f in F.fns(G + 'GeometricModel::GeometricModel') if len(f['params']) == 1 and f['kind'] == 'ctor')
    ag, ar = F.fn(DM + '::Add_Geometric_Model'), F.fn(DM + '::Add_Free_Region')
    o = obj(900, 'Domain')
    bad = None
    for d in range(5):
        for f in (c1, c3):
            if f is None: continue
            h = Heap(F, depth=10)
            ps = {p['n']: EMPTY for p in f['params']}
            ps[f['params'][0]['n']] = C(d)
            h.call(f, o, ps)
            if (h.pc == TRUE) != (d in (2, 3)): bad = bad or 'a domain of %d dimensions%s is %s' % (d, '' if f is c1 else ' with lists', 'taken' if h.pc == TRUE else 'refused')
    ck.ob('domains have two or three dimensions', False if bad else True, at(c1), bad or '', 'domain:dim')
    bad = und = None
    for d in (2, 3):
        for way in ('add', 'list', 'copy'):
            h = Heap(F, depth=10)
            rs = regs(F, h, [1, 2, 0])
            ms = [obj(920, 'GeometricModel'), obj(921, 'GeometricModel')]
            for m in ms: h.call(gm1, m, {gm1['params'][0]['n']: C(d)})
            oo = o
            if way == 'list':
                if c3 is None: continue
                h.call(c3, o, {c3['params'][0]['n']: C(d), c3['params'][1]['n']: lst(tuple(ms)), c3['params'][2]['n']: lst(tuple(rs))})
            else:
                h.call(c1, o, {c1['params'][0]['n']: C(d)})
                for m in ms: h.call(ag, o, {ag['params'][0]['n']: m})
                for r in rs: h.call(ar, o, {ar['params'][0]['n']: r})
            if way == 'copy':
                if cc is None: continue
                h2 = Heap(F, depth=10, m={l: v for l, v in h.m.items() if root(l) != o})
                src = mk(('addr', ('pref', cc['params'][0]['n'])))
                for l, v in h.m.items():
                    if root(l) == o: h2.m[mk(subst(('load', l), {o: src}))[1]] = v
                oo = obj(901, 'Domain')
                h2.call(cc, oo)
                h = h2
            if h.pc != TRUE: bad = bad or 'a domain of %d dimensions refuses its parts (%s)' % (d, way); continue
            for num, ith, w in (('Num_Geometric_Models', 'Geometric_Model_i', ms), ('Num_Free_Regions', 'Free_Region_i', rs)):
                got = see_list(h, F, oo, DM + '::' + num, DM + '::' + ith)
                if got is None or any(g is None for g in got): und = True
                elif got != w: bad = bad or '%s of %d gives %s (%s)' % (ith, len(w), [short(g) for g in got], way)
            if h.see(F.fn(DM + '::spatial_dimension'), oo) != C(d): bad = bad or 'the dimension is %s (%s)' % (short(h.see(F.fn(DM + '::spatial_dimension'), oo)), way)
    ck.ob('a domain lists the models and regions put into it', False if bad else None if und else True, at(ag), bad or '', 'domain:parts')
    bad = None
    for d in (2, 3):
        for x in range(4):
            if x in (2, 3):
                h = Heap(F, depth=10)
                m = obj(920, 'GeometricModel')
                h.call(gm1, m, {gm1['params'][0]['n']: C(x)})
                h.call(c1, o, {c1['params'][0]['n']: C(d)})
                h.call(ag, o, {ag['params'][0]['n']: m})
                if (h.pc == TRUE) != (x == d): bad = bad or 'a model of %d dimensions is %s by a domain of %d' % (x, 'taken' if h.pc == TRUE else 'refused', d)
            h = Heap(F, depth=10)
            rs = regs(F, h, [x])
            h.call(c1, o, {c1['params'][0]['n']: C(d)})
            h.call(ar, o, {ar['params'][0]['n']: rs[0]})
            if (h.pc == TRUE) != (x <= d): bad = bad or 'a region of %d dimensions is %s by a domain of %d' % (x, 'taken' if h.pc == TRUE else 'refused', d)
    ck.ob('a domain refuses models and regions that do not fit its dimension', False if bad else True, at(ag), bad or '', 'domain:refuse')


def pts_list(n, d, pre='v'):
    return lst(tuple(c25.value('%s%d_' % (pre, i), d) for i in range(n)))


def env_pts(pts, pre='v'):
    out = {}
    for i, p in enumerate(pts):
        for j, x in enumerate(p): out[mk(('sym', '%s%d_%d' % (pre, i, j)))] = Fraction(x)
    return out


POLYS = [[(0, 0), (4, 0), (0, 3)], [(0, 0), (4, 1), (1, 5)], [(0, 0), (4, 0), (4, 4), (0, 4)], [(-1, 0), (3, -2), (5, 3), (0, 4)], [(0, 0), (6, 0), (2, 2), (0, 6)], [(0, 0), (4, 0), (5, 3), (2, 6), (-1, 3)],
         [(0, 0), (4, -1), (6, 2), (4, 5), (2, 2), (0, 5)]]


def in_poly(p, poly):
    """+1 strictly inside, 0 on the boundary, -1 outside"""
    n = len(poly)
    c = False
    x, y = p
    for i in range(n):
        (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % n]
        cr = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
        if cr == 0 and min(x0, x1) <= x <= max(x0, x1) and min(y0, y1) <= y <= max(y0, y1): return 0
        if (y0 > y) != (y1 > y):
            if x < x0 + Fraction(y - y0) * (x1 - x0) / (y1 - y0): c = not c
    return 1 if c else -1


def polygon(ck, F):
    f = F.fn(G + 'point_in_polygon')
    for n in (3, 4, 5, 6):
        h = Heap(F, depth=10)
        v = h.call(f, None, {f['params'][0]['n']: c25.value('x', 2), f['params'][1]['n']: pts_list(n, 2)})
        cases = []
        for poly in POLYS:
            if len(poly) != n: continue
            for rev in (False, True):
                for k in range(n):
                    P = poly[k:] + poly[:k]
                    if rev: P = P[::-1]
                    for x in range(-4, 15):
                        for y in range(-4, 15):
                            q = (Fraction(x, 2), Fraction(y, 2))
                            s = in_poly(q, P)
                            if s: cases.append(({**env_pts(P), **env_of(x=q)}, s > 0, 'the point (%s, %s) of the polygon %s' % (q[0], q[1], P)))
        if not ck.thorough: cases = cases[::3] if n < 5 else cases[::7]
        decide(ck, f, v, cases, 'a point lies in a polygon of %d corners exactly when it is strictly inside (or maybe on its boundary)' % n, 'polygon:%d' % n)


    for P in ([(9, 0), (8, 5), (4, 9), (-1, 9), (-6, 7), (-9, 2), (-8, -4), (-3, -9), (5, -8)], [(12, 0), (8, 4), (9, 9), (4, 8), (0, 12), (-4, 8), (-9, 9), (-8, 4), (-12, 0), (-8, -4), (-9, -9), (-4, -8), (0, -12), (4, -8), (9, -9), (8, -4)]):
        bad, und, n = None, False, 0
        for x in range(-25, 27, 8):
            for y in range(-27, 27, 6):
                q = (x / 2, y / 2)
                s = in_poly((Fraction(x, 2), Fraction(y, 2)), P)
                if not s: continue
                n += 1
                r = Heap(F, depth=10, unroll=32).call(f, None, {f['params'][0]['n']: obj_value(q), f['params'][1]['n']: lst(tuple(obj_value([float(z) for z in p]) for p in P))})
                if r not in (TRUE, FALSE, C(0), C(1)): und = True
                elif (r in (TRUE, C(1))) != (s > 0): bad = bad or 'the point %s of the polygon %s is %s' % (q, P, 'outside' if s > 0 else 'inside')
        ck.count('arrangements', n)
        ck.ob('a point lies in a polygon of %d corners exactly when it is strictly inside (or maybe on its boundary)' % len(P), False if bad else None if und else True, at(f), bad or '', 'polygon:%d' % len(P))


P9 = [(9, 0), (8, 5), (4, 9), (-1, 9), (-6, 7), (-9, 2), (-8, -4), (-3, -9), (5, -8)]
SOLIDS = {
    'tetrahedron': ([(0, 0, 0), (4, 0, 0), (0, 4, 0), (0, 0, 4)], [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]),
    'hexahedron': ([(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (0, 0, 4), (4, 0, 4), (4, 4, 4), (0, 4, 4)],
                   [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]),
    'prism': ([(0, 0, 0), (4, 0, 0), (0, 4, 0), (0, 0, 4), (4, 0, 4), (0, 4, 4)], [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)]),
    'pyramid': ([(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (2, 2, 4)], [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]),
    'pentagonal prism': ([(x, y, z) for z in (0, 4) for x, y in ((0, 0), (4, -1), (6, 2), (3, 5), (-1, 3))],
                         [(4, 3, 2, 1, 0), (5, 6, 7, 8, 9)] + [(i, (i + 1) % 5, 5 + (i + 1) % 5, 5 + i) for i in range(5)]),
    'hexahedron with a bent top': ([(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (0, 0, 4), (4, 0, 6), (4, 4, 4), (0, 4, 6)],
                                   [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]),
}


# only evaluated at numbers
WIDE = {'prism over a polygon of 9 corners': ([(x, y, z) for z in (0, 9) for x, y in P9], [tuple(range(8, -1, -1)), tuple(range(9, 18))] + [(i, (i + 1) % 9, 9 + (i + 1) % 9, 9 + i) for i in range(9)]),
        'pyramid over a bent polygon of 9 corners': ([(x, y, (0, 1, 0)[i % 3]) for i, (x, y) in enumerate(P9)] + [(0, 0, 12)], [tuple(range(8, -1, -1))] + [(i, (i + 1) % 9, 9) for i in range(9)])}


def side_of(p, a, b, c):
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    w = [p[i] - a[i] for i in range(3)]
    return w[0] * (u[1] * v[2] - u[2] * v[1]) + w[1] * (u[2] * v[0] - u[0] * v[2]) + w[2] * (u[0] * v[1] - u[1] * v[0])


def obj_value(xs): return ('obj', ('sym', 'whole_number'), ((c25.D, C(len(xs))), (c25.X, lst(tuple(C(x) for x in xs)))))


def sides(q, face):
    """on which side of the triangles of a face (a larger face is split at its centre)"""
    if len(face) == 3: return [side_of(q, *face)]
    m = [Fraction(sum(p[i] for p in face), len(face)) for i in range(3)]
    return [side_of(q, face[i], face[(i + 1) % len(face)], m) for i in range(len(face))]


def polyhed(ck, F):
    f = F.fn(G + 'point_in_polyhed')
    for name, (pts, faces) in SOLIDS.items():
        h = Heap(F, depth=10, unroll=32)
        vals = [c25.value('v%d_' % i, 3) for i in range(len(pts))]
        ps = [p['n'] for p in f['params']]
        v = h.call(f, None, {ps[0]: c25.value('x', 3), ps[1]: lst(tuple(vals)), ps[2]: C(len(faces)), ps[3]: lst(tuple(C(len(x)) for x in faces)), ps[4]: lst(tuple(vals[i] for x in faces for i in x))})
        cases = []
        step = 1 if ck.thorough else 2
        for q in itertools.product([Fraction(2 * k + 1, 3) for k in range(-2, 8, step)], repeat=3):
            s = [y for x in faces for y in sides(q, [pts[i] for i in x])]
            if 0 in s: continue
            cases.append(({**env_pts(pts), **env_of(x=q)}, all(x < 0 for x in s), 'the point (%s, %s, %s) of the %s' % (q[0], q[1], q[2], name)))
        # the same with numbers, to see what is read
        big = [tuple(60 * x for x in p) for p in pts]
        mid = [sum(p[i] for p in big) // len(big) for i in range(3)]
        num = [obj_value(b) for b in big]
        h = Heap(F, depth=10, unroll=32)
        r = h.call(f, None, {ps[0]: obj_value(mid), ps[1]: lst(tuple(num)), ps[2]: C(len(faces)), ps[3]: lst(tuple(C(len(x)) for x in faces)), ps[4]: lst(tuple(num[i] for x in faces for i in x))})
        ck.ob('the middle of a %s lies in it' % name, None if r not in (TRUE, FALSE, C(0), C(1)) else r in (TRUE, C(1)), at(f), '', 'polyhed:mid:' + name)
        decide(ck, f, v, cases, 'a point lies in a %s exactly when it is behind all its faces' % name, 'polyhed:' + name)
    for name, (pts, faces) in WIDE.items():
        ps = [p['n'] for p in f['params']]
        num = [obj_value([float(x) for x in p]) for p in pts]
        bad, und, n = None, False, 0
        for q in list(itertools.product((-8.75, -3.25, 0.5, 4.5, 7.75), (-9.25, -3.5, 0.75, 6.25), (-1.5, 0.125, 0.25, 2.75, 8.5, 11.25)))[:: 1 if ck.thorough else 5]:
            s = [y for x in faces for y in sides([Fraction(z) for z in q], [pts[i] for i in x])]
            if 0 in s: continue
            n += 1
            r = Heap(F, depth=10, unroll=32).call(f, None, {ps[0]: obj_value(q), ps[1]: lst(tuple(num)), ps[2]: C(len(faces)), ps[3]: lst(tuple(C(len(x)) for x in faces)), ps[4]: lst(tuple(num[i] for x in faces for i in x))})
            want = all(x < 0 for x in s)
            if r not in (TRUE, FALSE, C(0), C(1)): und = True
            elif (r in (TRUE, C(1))) != want: bad = bad or 'the point %s of the %s is %s' % (q, name, 'outside' if want else 'inside')
        ck.count('arrangements', n)
        ck.ob('a point lies in a %s exactly when it is behind all its faces' % name, False if bad else None if und else True, at(f), bad or '', 'polyhed:' + name)
