"""C24: a state vector holds one value per entity, a multi-material vector one per material and cell of the material."""
from .common import *
from . import c16, objs

RULE = ('Every member of the state vector templates is instantiated and evaluated for single and multi-material vectors over meshes, tiles and sets. Accessors, iterators, resizing '
        'and constructors are compared with the one block of data get_data() designates; the multi-material members are evaluated over a state manager with two materials whose '
        'cell sets have two and one symbolic cells and must give each material a row as long as its set, filled in the order of the set from the array in either layout.')
ST, SVB = 'Jali::State::', 'Jali::StateVectorBase::'
NE = ['Jali::Mesh::num_entities', 'Jali::MeshTile::num_entities', 'Jali::MeshSet::num_entities']
STATE = ('addr', ('sym', 'ST'))
SETS = (('sym', 's0'), ('sym', 's1'))
CELLS = ((('sym', 'a0'), ('sym', 'a1')), (('sym', 'b0'),))
ROWS = (('list', (('sym', 'p0'), ('sym', 'p1'))), ('list', (('sym', 'q0'),)))


def check():
    ck = Check('C24', RULE)
    ck.bounds()
    try: F = ck.load('mesh', 'state', 'state_w')
    except AnalysisError as e:
        if 'state_witness' not in str(e): raise
        ck.load('mesh', 'state')
        err = next((l for l in str(e).split('\n') if 'error:' in l and '/src/' in l), str(e)[-300:])
        ck.ob('every member of the state vector templates compiles for each kind of domain', False, err.strip()[:200], 'it does not', 'compiles')
        return ck.finish()
    ck.ob('every member of the state vector templates compiles for each kind of domain', True)
    vs = [v for v in c16.vectors(F) if any(F.funcs.get(m['usr'], {}).get('body') is not None for m in F.classes[v]['methods'] if m['n'] == 'get_data')]
    ck.need(len([v for v in vs if 'Uni' in v]), 3, 'single-value vector classes')
    ck.need(len([v for v in vs if 'Multi' in v]), 2, 'multi-material vector classes')
    ck.count('vector_classes', len(vs))
    w = world(F)
    for v in vs: vector(ck, F, v, w)
    queries(ck, F, w)
    printing(ck, F)
    return ck.finish()


def printing(ck, F):
    """the state manager writes every vector, a vector every value, in order"""
    for f in F.by_qn.get('Jali::operator<<', []):
        if f.get('body') is None or len(f['params']) != 2 or noref(f['params'][1]['t']).replace('const ', '').strip() != 'Jali::State': continue
        S, vs = ('sym', 'STATE_'), (('sym', 'VEC0'), ('sym', 'VEC1'), ('sym', 'VEC2'))
        for k in (0, 3):
            h = objs.Heap(F, depth=6, unroll=8)
            h.m[mk(('fld', S, c16.SV[2]))] = lst(vs[:k]) if k else EMPTY
            h.opaque = {'Jali::StateVectorBase::print'}
            h.call(f, None, {f['params'][1]['n']: ('REF', ('deref', S))})
            ev = [e for e in h.I.events if e.kind == 'call' and e.name.split('::')[-1] in ('print', 'operator<<') and e.obj in vs]
            if not ev and any(e.kind == 'call' and contains(('call', e.name, e.args), lambda t: t in vs) for e in h.I.events): continue
            ok = None if any(e.pc != TRUE for e in ev) else [e.obj for e in ev] == list(vs[:k])
            ck.ob('writing the state manager writes its %d vectors' % k, ok, at(f), 'it writes %s' % [short(e.obj) for e in ev], 'print-state')


def val(t): return t[2] if t and t[0] == 'typed' else t


def world(F):
    """what is assumed of the state manager: two materials, their sets and cells"""
    ms = [loc_of(run(F, f).result) or run(F, f).result for f in F.fns(ST + 'material_set')]
    if not ms or ms[0][0] != 'idx' or ms[0][1][0] != 'load': raise AnalysisError('material_set of the state manager does not read a list')
    L = ms[0][1][1]
    out = {subst_this(L, STATE): ('list', SETS)}
    for s, cs in zip(SETS, CELLS):
        for (k, t), l in ents(F, s).items():
            if t == 'ALL': out[l] = ('list', cs)
    return out


def ents(F, s):
    out = {}
    for f in F.fns('Jali::MeshSet::entities'):
        for t in TYPES:
            if f.get('targs') == [targ(t)] or (t == 'ALL' and not f.get('targs')): out[('e', t)] = loc_of(run(F, f, this=s).result)
    if ('e', 'ALL') not in out: raise AnalysisError('entities() of mesh sets not found')
    return out


def subst_this(loc, to): return mk(subst(('load', loc), {THIS: to}))[1]


def methods(F, cls):
    out = {}
    for c in [cls] + F.bases(cls):
        for m in F.classes[c]['methods']:
            f = F.funcs.get(m['usr'])
            if f and f.get('body') is not None:
                l = out.setdefault(m['n'], [])
                if not any([p['t'] for p in g['params']] == [p['t'] for p in f['params']] and g.get('const') == f.get('const') for g in l): l.append(f)
    return out


def vector(ck, F, cls, w):
    multi = 'MultiState' in cls
    M = methods(F, cls)
    nm = cls.replace('Jali::', '')
    gd = M.get('get_data')
    if not gd: raise AnalysisError('%s::get_data not found' % cls)
    P = run(F, gd[0]).result
    if P[0] != 'load': raise AnalysisError('%s::get_data does not give a field' % cls)
    D = ('deref', P)
    ld = ('load', D)
    n = 0

    def ob(f, what, ok, got, key):
        ck.ob('%s: %s' % (nm, what), ok, at(f), 'gives ' + (short(got) if got is not None else 'nothing'), '%s:%s' % (nm, key))

    def eqloc(r, l): return same(r, ('addr', mk(l)))
    row = (lambda f: mk(('elem', D, ('sym', f['params'][0]['n'])))) if multi else (lambda f: D)
    rv = (lambda f: index(ld, ('sym', f['params'][0]['n']))) if multi else (lambda f: ld)
    np = 1 if multi else 0
    for q in ('begin', 'end', 'cbegin', 'cend'):
        for f in M.get(q, []):
            r = run(F, f).result
            ob(f, '%s() is at the %s of the data' % (q, 'end' if 'end' in q else 'start'), eqloc(r, ('elem', row(f), size(rv(f)) if 'end' in q else C(0))), r, q)
    for f in M.get('operator[]', []):
        r = run(F, f).result
        i = ('sym', f['params'][0]['n'])
        ob(f, 'v[i] is the i\'th value', same(val(r), index(ld, i)) or eqloc(r, ('elem', D, i)), r, '[]' + ('c' if f.get('const') else ''))
    for f in M.get('get_raw_data', []):
        r = run(F, f).result
        b = ('elem', row(f) if f['params'] else D, C(0))
        ob(f, 'get_raw_data gives the address of the first value', eqloc(r, b) or r == ('addr', mk(b)), r, 'raw%d%s' % (len(f['params']), f.get('const')))
    for f in M.get('get_matdata', []):
        r = run(F, f).result
        ob(f, 'get_matdata gives the row of the material', eqloc(r, row(f)) or same(val(r), rv(f)), r, 'matdata%s' % f.get('const'))
    for f in M.get('size', []):
        r = run(F, f).result
        ob(f, 'size is the number of %s' % ('values' if f['params'] or not multi else 'materials'), same(val(r), size(rv(f) if f['params'] else ld)), r, 'size%d' % len(f['params']))
    for f in M.get('resize', []):
        if len(f['params']) < np + 1: continue
        I = run(F, f)
        k = [('sym', p['n']) for p in f['params']]
        t = I.read(I.final, mk(row(f)))
        fill = k[np + 1] if len(k) > np + 1 else C(0)
        ob(f, 'resize sets the length and the value of what is added', same(t, resize(rv(f), k[np], fill)), t, 'resize%d' % len(k))
    for f in M.get('clear', []):
        I = run(F, f)
        l = mk(row(f)) if f['params'] else D
        t = I.read(I.final, l)
        ob(f, 'clear empties the %s' % ('row' if f['params'] else 'vector'), t == EMPTY, t, 'clear%d' % len(f['params']))
    for f in M.get('print', []) if not multi else ():
        vals = tuple(('sym', 'VAL%d' % i) for i in range(3))
        h = objs.Heap(F, depth=8, unroll=8)
        h.m[P[1]] = ('sym', 'DATA')
        h.m[('deref', ('sym', 'DATA'))] = lst(vals)
        h.call(f, THIS, {})
        ev = [e for e in h.I.events if e.kind == 'stream' and val(e.val) in vals or e.kind == 'call' and e.name.endswith('operator<<') and any(val(a) in vals for a in e.args)]
        got = [next(val(a) for a in ([e.val] if e.kind == 'stream' else e.args) if val(a) in vals) for e in ev]
        ob(f, 'writing it writes its values in order', None if not got or any(e.pc != TRUE for e in ev) else got == list(vals), ('list', tuple(got)) if got else None, 'print')
    for f in M.get('type', []):
        r = run(F, f).result
        ob(f, 'type() says which kind of vector it is', val(r) == C(F.enum('Jali::StateVector_type')['MULTIVAL' if multi else 'UNIVAL']), r, 'type')
    T = c16.cls_info(F, cls)[1]
    for f in M.get('data_type', []):
        r = run(F, f).result
        ob(f, 'data_type() is the type of its values', loc_of(r) == ('static', 'typeid(%s)' % T) if r and 'typeid' in short(r) else None, r, 'data_type')
    dq = run(F, M['domain'][0]).result
    for f in M.get('mesh', []):
        r = run(F, f).result
        dom = c16.cls_info(F, cls)[2]
        if dom == 'Jali::Mesh': ok = eqloc(r, ('deref', dq)) or r == dq
        else:
            g = [x for x in F.fns(dom + '::mesh') if x.get('body') is not None]
            ok = same(r, run(F, g[0], this=dq).result) if g else None
        ob(f, 'mesh() is the mesh of the domain', ok, r, 'mesh')
    copies(ck, F, cls, P, D, ob)
    if multi: materials(ck, F, cls, M, P, w, ob)
    ctors(ck, F, cls, M, P, D, w, ob, multi)


def copies(ck, F, cls, P, D, ob):
    for m in F.classes[cls]['methods']:
        f = F.funcs.get(m['usr'])
        if not f or f.get('body') is None and f['kind'] != 'copyctor': continue
        if f['kind'] == 'copyctor':
            o = ('pref', f['params'][0]['n'])
            I = run(F, f)
            p = I.read(I.final, P[1])
            b = I.read(I.final, ('deref', p))
            st0 = St({o: ('sym', f['params'][0]['n'])})
            want = I.read(st0, ('deref', I.read(st0, subst_this(P[1], ('addr', o)))))
            ob(f, 'a copy has data of its own', p[0] == 'new', p, 'copy-own')
            ob(f, 'a copy has the values of its source', same(b, want), b, 'copy-data')


def shape(t):
    """rows of a two-level list that is known"""
    e = elems(t)
    if e is None: return None
    out = [elems(x) for x in e]
    return None if any(x is None for x in out) else [tuple(val(y) for y in x) for x in out]


def lists(rows): return ('list', tuple(('list', tuple(r)) if r else EMPTY for r in rows))


def materials(ck, F, cls, M, P, w, ob):
    """the members that go through the state manager"""
    DD = ('addr', ('sym', 'DATA'))
    base = dict(w)
    base[P[1]] = DD
    base[('sym', 'DATA')] = ('list', ROWS)
    sq = [x for x in ('mystate_',)]
    sl = next((mk(('fld', THIS, c['qn'] + '::' + fl['n'])) for c, fl in c16.fields(F, cls) if 'State>' in fl['t']), None)
    if sl is None: raise AnalysisError('%s has no pointer to its state manager' % cls)
    base[sl] = STATE
    lay = F.enum('Jali::Data_layout')
    cur = lambda I: I.read(I.final, ('deref', I.read(I.final, P[1])))

    def rows(f, I, what, want, key):
        t = cur(I)
        got = shape(t)
        ok = None if got is None and any(x[0] in ('unk', 'seq', 'exits', 'after') for x in walk(t)) else got == want
        if got is not None and not ok: ok = len(got) == len(want) and all(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) for a, b in zip(got, want))
        ob(f, what, ok, t, key)
    zero = C(0)
    for f in M.get('allocate', []):
        I = run(F, f, assume=base, unroll=6)
        t = shape(cur(I))
        ob(f, 'allocate gives each material a row as long as its set', None if t is None else [len(x) for x in t] == [len(x) for x in CELLS], cur(I), 'allocate')
    for f in M.get('assign', []):
        ps = f['params']
        if len(ps) == 1:
            for start, tag in ((('list', ROWS), ''), (EMPTY, ' to an empty vector'), (('list', ROWS + (ROWS[0],)), ' to a vector with too many rows')):
                b = dict(base); b[('sym', 'DATA')] = start
                I = run(F, f, assume=b, unroll=6)
                v = ('sym', ps[0]['n'])
                rows(f, I, 'assign%s gives every cell of every material the value' % tag, [(v,) * len(c) for c in CELLS], 'assignval' + tag)
        elif len(ps) == 2:
            lp = next(p['n'] for p in ps if 'Data_layout' in p['t'])
            dp = next(p['n'] for p in ps if p['n'] != lp)
            d = ('addr', ('elem', ('sym', 'ARR'), C(0)))
            for l, v in sorted(lay.items()):
                for start, tag in ((('list', ROWS), ''), (EMPTY, ' to an empty vector')):
                    b = dict(base); b[('sym', 'DATA')] = start
                    b[('sym', 'ARR')] = ('sym', 'A')
                    I = run(F, f, assume=b, unroll=6, params={lp: C(v), dp: d})
                    el = lambda i, j: index(('load', mk(('arr', index(('sym', 'A'), i)))), j)
                    want = [tuple(el(c, C(m)) if l == 'CELL_CENTRIC' else el(C(m), c) for c in cs) for m, cs in enumerate(CELLS)]
                    rows(f, I, 'assign from a %s array%s takes each cell\'s value' % (l.lower().replace('_', ' '), tag), want, 'assign:' + l + tag)
    for f in M.get('add_material', []):
        I = run(F, f, assume=base, unroll=6, params={f['params'][0]['n']: C(3)})
        t = shape(cur(I))
        ob(f, 'add_material appends a row of the given length', None if t is None else t[:2] == [r[1] for r in ROWS] and len(t) == 3 and len(t[2]) == 3, cur(I), 'add_material')
    for f in M.get('rem_material', []):
        for m in (0, 1):
            I = run(F, f, assume=base, unroll=6, params={f['params'][0]['n']: C(m)})
            t = shape(cur(I))
            ob(f, 'rem_material removes the row of material %d' % m, None if t is None else t == [ROWS[1 - m][1]], cur(I), 'rem_material%d' % m)
    for f in M.get('operator()', []):
        i, j, lp = (p['n'] for p in f['params'])
        for l, v in sorted(lay.items()):
            for m in (0, 1):
                c = ('sym', 'c')
                pr = {i: C(m), j: c, lp: C(v)} if l == 'MATERIAL_CENTRIC' else {i: c, j: C(m), lp: C(v)}
                I = run(F, f, assume=base, unroll=6, params=pr, opaque=['Jali::MeshSet::index_in_set'])
                r = I.result
                calls = set(x for x in walk(r) if x[0] == 'call' and x[1] == 'Jali::MeshSet::index_in_set')
                key = 'at:%s:%d:%s' % (l, m, f.get('const'))
                what = '(%s) is the value of the cell in the row of the material' % ('m, c' if l == 'MATERIAL_CENTRIC' else 'c, m')
                if len(calls) != 1:
                    ob(f, what, None if not calls else False, r, key)
                    continue
                k = list(calls)[0]
                args = [val(x) for x in k[2]]
                ob(f, '%s: looks the cell up in the set of the material' % what, len(args) == 2 and args[0] in (SETS[m], ('addr', ('deref', SETS[m]))) and args[1] == c, r, key + ':set')
                loc = mk(('elem', mk(('elem', ('sym', 'DATA'), C(m))), k))
                # the cell is at place 0, at place 1 of the set, or (-1) not in it
                at_k = lambda t, v: subst(mk(t), {k: C(v)})
                if f['ret'].endswith('&'):
                    for q in (0, 1):
                        ob(f, what, same(at_k(r, q), ('addr', at_k(loc, q))), r, key)
                        ob(f, 'a cell with the material has a place', implies(TRUE, at_k(I.final.pc, q)), I.final.pc, key + ':nothrow')
                    ob(f, 'asking for the place of a cell without the material fails', sat(at_k(I.final.pc, -1)) is None, I.final.pc, key + ':throw')
                else:
                    for q in (0, 1):
                        ob(f, what, same(at_k(r, q), at_k(index(ROWS[m], k), q)), r, key)
                        ob(f, 'asking for the value of a cell with the material works', implies(TRUE, at_k(I.final.pc, q)), I.final.pc, key + ':nothrow')
                    ob(f, 'a cell without the material has the value 0', same(at_k(r, -1), zero), r, key + ':0')


def ctors(ck, F, cls, M, P, D, w, ob, multi):
    q = {n: run(F, M[n][0]).result for n in ('name', 'entity_kind', 'entity_type', 'domain')}
    for n, r in q.items():
        if val(r)[0] != 'load': raise AnalysisError('%s::%s does not give a field' % (cls, n))
    lay = F.enum('Jali::Data_layout')
    for m in F.classes[cls]['methods']:
        f = F.funcs.get(m['usr'])
        if not f or f['kind'] != 'ctor' or len(f['params']) < 5: continue
        ps = f['params']
        A = {'name': c16.arg(f, lambda t: t.startswith('std::basic_string')), 'entity_kind': c16.arg(f, lambda t: 'Entity_kind' in t),
             'entity_type': c16.arg(f, lambda t: 'Entity_type' in t),
             'domain': next(('sym', p['n']) for p in ps if p['t'].startswith('std::shared_ptr') and 'State' not in p['t'])}
        sp = next(p['n'] for p in ps if 'Jali::State>' in p['t'])
        last = ps[-1]
        kind = 'array' if '*' in last['t'] else 'value' if 'Entity_type' not in last['t'] and 'Data_layout' not in last['t'] else 'none'
        cases = [(kind, {})]
        if kind == 'array':
            cases = [('no array', {last['n']: C(0)}), ('array', {last['n']: ('addr', ('elem', ('sym', 'ARR'), C(0)))})]
        if multi and kind == 'array':
            lp = next((p['n'] for p in ps if 'Data_layout' in p['t']), None)
            cases = [(a + ',' + l, dict(pr, **{lp: C(v)})) for a, pr in cases for l, v in sorted(lay.items())]
        for tag, pr in cases:
            b = dict(w)
            b[('sym', 'ARR')] = ('sym', 'A')
            I = run(F, f, opaque=NE, assume=b, unroll=6, params=dict({sp: STATE}, **pr))
            k = '%d:%s' % (len(ps), tag)
            for n, a in A.items():
                t = I.read(I.final, val(q[n])[1])
                ob(f, 'constructed with a %s, %s() gives it' % (n, n), same(val(t), a), t, 'ctor:%s:%s' % (k, n))
            p = I.read(I.final, P[1])
            blk = I.read(I.final, ('deref', p))
            ob(f, 'a new vector has data of its own', p[0] == 'new', p, 'ctor:%s:own' % k)
            if not multi:
                ne = [e for e in I.events if e.kind == 'call' and e.d['name'].endswith('::num_entities')]
                good = [e.d.get('term') for e in ne if e.d.get('obj') == A['domain'] and [val(x) for x in e.d['args']] == [A['entity_kind'], A['entity_type']]]
                ob(f, 'a new vector has one value per entity of its kind and type in its domain', bool(good) and same(size(blk), good[0]), size(blk), 'ctor:%s:size' % k)
                el = val(index(blk, ('sym', 'i#')))
                if tag == 'array': ob(f, 'a new vector has the values given', el == mk(('load', mk(('elem', ('arr', pr[last['n']]), ('sym', 'i#'))))) or same(el, index(('sym', 'A'), ('sym', 'i#'))), el, 'ctor:%s:data' % k)
                if tag == 'value': ob(f, 'a new vector has the value given everywhere', same(el, ('sym', last['n'])), el, 'ctor:%s:data' % k)
            else:
                t = shape(blk)
                if tag.startswith('no') : ok = None if t is None else [len(x) for x in t] == [len(c) for c in CELLS]
                elif tag == 'value': ok = None if t is None else t == [(('sym', last['n']),) * len(c) for c in CELLS]
                else:
                    l = tag.split(',')[1]
                    el = lambda i, j: index(('load', mk(('arr', index(('sym', 'A'), i)))), j)
                    want = [tuple(el(c, C(m)) if l == 'CELL_CENTRIC' else el(C(m), c) for c in cs) for m, cs in enumerate(CELLS)]
                    ok = None if t is None else len(t) == 2 and all(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) for a, b in zip(t, want))
                ob(f, 'a new vector has a value per material and cell of the material', ok, blk, 'ctor:%s:data' % k)


def queries(ck, F, w):
    """what the vectors ask the state manager"""
    for n, want in (('num_materials', C(2)),):
        for f in F.fns(ST + n):
            r = run(F, f, this=STATE, assume=w).result
            ck.ob('the state manager says how many materials there are', same(val(r), want), at(f), 'gives ' + short(r), 'q:' + n)
    for i in (0, 1):
        for f in F.fns(ST + 'material_set'):
            r = run(F, f, this=STATE, assume=w, params={f['params'][0]['n']: C(i)}).result
            ck.ob('the state manager gives the set of each material', same(val(r), SETS[i]), at(f), 'gives ' + short(r), 'q:set%d' % i)
