"""C19: fields of the mesh come in as state vectors and single-value vectors on the mesh go out as fields."""
from .common import *
from .objs import *
from . import c16

RULE = ('init_from_mesh is evaluated over abstract meshes that offer fields of every type on nodes, faces and cells in two and three dimensions, and export_to_mesh over a state manager '
        'with a vector of every class on every domain: each field must become one vector of its name, kind and value type with the values the mesh gave for all entities, and each '
        'single-value vector on the mesh of a type meshes can hold must be stored under its name and kind from its own data; nothing else is stored, and no null pointer is used.')
S_ = 'Jali::State::'
ST = mk(('new', 900, 'Jali::State'))
MESH = mk(('new', 901, 'Jali::Mesh'))
TYPES_ = ('INT', 'DOUBLE', 'VECTOR', 'TENSOR', 'POINTER')


def want(t, d):
    if t == 'INT': return 'int'
    if t == 'DOUBLE': return 'double'
    if t == 'VECTOR': return 'std::array<double, %d>' % d if d in (2, 3) else None
    if t == 'TENSOR': return 'std::array<double, %d>' % {2: 3, 3: 6}[d] if d in (2, 3) else None
    return None


def base(F, hooks):
    h = Heap(F, hooks=hooks, depth=10)
    c = [f for f in F.fns(S_ + 'State') if len(f['params']) == 1 and f['kind'] == 'ctor']
    if len(c) != 1: raise AnalysisError('constructor of the state manager not found')
    h.call(c[0], ST, {c[0]['params'][0]['n']: MESH})
    return h


def ptr(I, st, e, i):
    t = argterm(I, e, i, st)
    return I.ptr_loc(t)


def vecs(F, h):
    """the vectors of the state manager, in order"""
    b, e = F.fns(S_ + 'cbegin', nparams=0), F.fns(S_ + 'cend', nparams=0)
    r = h.see(b[0], ST)
    if r[0] != 'addr' or r[1][0] != 'elem': return None
    return elems(h.m.get(mk(r[1][1]), ('unk',)))


def get(F, h, v, n):
    for c in [v[2]] + F.bases(v[2]):
        for m in F.classes[c]['methods']:
            f = F.funcs.get(m['usr'])
            if m['n'] == n and f and f.get('body') is not None and not f['params']: return h.see(f, v)
    return None


def check():
    ck = Check('C19', RULE)
    ck.bounds()
    F = ck.load('mesh', 'state', 'state_w')
    bring_in(ck, F)
    send_out(ck, F)
    return ck.finish()


def bring_in(ck, F):
    f = F.fn(S_ + 'init_from_mesh')
    K = F.enum('Jali::Entity_kind')
    ALL = F.enum('Jali::Entity_type')['ALL']
    N = {K['NODE']: 4, K['FACE']: 3, K['CELL']: 2}
    cases = [(d, {K[k]: list(TYPES_)}) for d in (2, 3) for k in ('NODE', 'FACE', 'CELL')]
    cases += [(d, {K['NODE']: ['TENSOR', 'INT'], K['FACE']: ['DOUBLE'], K['CELL']: ['VECTOR', 'VECTOR', 'DOUBLE']}) for d in (2, 3)]
    cases += [(3, {}), (1, {K['CELL']: ['DOUBLE', 'INT']}), (3, {K['CELL']: ['INT', 'INT', 'INT']})]
    bad, und, leak = None, False, None
    cases = [(d, d, l) for d, l in cases] + [(d, d - 1, l) for d, l in cases if d > 1]        # surfaces and curves too
    for d, md, fields in cases:
        got = []

        def info(I, st, e):
            k = argterm(I, e, 0, st)
            if not is_num(k): return None
            l = fields.get(k[1], [])
            I.write(st, ptr(I, st, e, 1), C(len(l)), e)
            if l:
                I.write(st, ptr(I, st, e, 2), lst(tuple(C('f%d_%d' % (k[1], i)) for i in range(len(l)))), e)
                I.write(st, ptr(I, st, e, 3), lst(tuple(C(t) for t in l)), e)
            return ('void',)

        def field(I, st, e):
            nm, k, p = argterm(I, e, 0, st), argterm(I, e, 1, st), argterm(I, e, 2, st)
            t = noref(e['pt'][2]).rstrip('* ')
            got.append((nm, k, t))
            if p[0] != 'addr' and p[0] != 'new': return TRUE
            l = p[1] if p[0] == 'addr' else ('deref', p)
            r = l[1] if l[0] == 'elem' else l
            n = N.get(k[1], 1) if is_num(k) else 1
            have = size(I.read(st, r))
            for x in I.events:
                if x.kind == 'new' and x.d.get('arr') and r == ('deref', x.d['ptr']): have = x.d['n']
            if is_num(have) and have[1] < n: got.append(('short', nm, have[1]))
            I.write(st, r, lst(tuple(('sym', '%s@%d' % (nm[1], i)) for i in range(n))), e)
            return TRUE

        def num(I, st, e):
            k, t = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if not (is_num(k) and is_num(t)): return None
            return C(N.get(k[1], 0) if t[1] == ALL else 1)
        hooks = {'Jali::Mesh::get_field_info': info, 'Jali::Mesh::get_field': field, 'Jali::Mesh::num_entities': num,
                 'Jali::Mesh::space_dimension': lambda I, st, e: C(d), 'Jali::Mesh::manifold_dimension': lambda I, st, e: C(md)}
        h = base(F, hooks)
        h.call(f, ST)
        vs = vecs(F, h)
        if vs is None or not all(v[0] == 'new' for v in vs): und = True; continue
        seen = {}
        for v in vs:
            nm, k = get(F, h, v, 'name'), get(F, h, v, 'entity_kind')
            T = c16.cls_info(F, v[2])[1]
            p = h.m.get(block(h, F, v))
            seen[(nm, k)] = (v, T, h.m.get(mk(('deref', p))))
            if (nm, k) and len([1 for w in vs if get(F, h, w, 'name') == nm]) > 1: bad = bad or 'the field %s comes in twice' % show(nm)
        w = {}
        for k, l in fields.items():
            for i, t in enumerate(l):
                if want(t, d): w[(C('f%d_%d' % (k, i)), C(k))] = want(t, d)
        for key, T in w.items():
            x = seen.get(key)
            what = '%s field on entities of kind %d in %d dimensions' % (T, key[1][1], d)
            if x is None: bad = bad or 'a %s does not come in' % what; continue
            v, T2, data = x
            if T2 != T: bad = bad or 'a %s comes in as %s' % (what, T2); continue
            el = elems(data) if data is not None else None
            if el is None: und = True; continue
            vals = tuple(mk(('sym', '%s@%d' % (key[0][1], i))) for i in range(N[key[1][1]]))
            if tuple(mk(y) for y in el) != vals: bad = bad or 'a %s comes in with %s' % (what, short(data))
            if get(F, h, v, 'entity_type') != C(ALL): bad = bad or 'a %s comes in for entities of type %s' % (what, short(get(F, h, v, 'entity_type')))
            if get(F, h, v, 'domain') != MESH: bad = bad or 'a %s comes in on another domain' % what
        for g in got:
            if g[0] == 'short': bad = bad or 'the buffer for field %s has only %d entries' % (show(g[1]), g[2])
            elif (g[0], g[1]) in w and g[2] != w[(g[0], g[1])]: bad = bad or 'field %s is read as %s' % (show(g[0]), g[2])
        if len(seen) != len(w): bad = bad or '%d vectors come in from %d fields' % (len(seen), len(w))
        ck.count('fields', len(w))
        # buffers that nobody owns
        ev = h.I.events
        news = [x for x in ev if x.kind == 'new' and x.d.get('arr')]
        dels = [x for x in ev if x.kind == 'delete']
        if len(news) > len(dels): leak = leak or '%d buffers allocated, %d released' % (len(news), len(dels))
    ck.ob('every field of the mesh of a known type comes in as a vector of its name, kind, value type and values', False if bad else None if und else True, at(f), bad or '', 'in')
    ck.ob('the buffers fields are read into are released', not leak, at(f), leak or '', 'in-leak')


def send_out(ck, F):
    f = F.fn(S_ + 'export_to_mesh')
    K, T_ = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
    vs = c16.vectors(F)
    sv = [x for x in F.cls('Jali::State')['fields'] if 'StateVectorBase>' in x['t'] and 'vector' in x['t']]
    if len(sv) != 1: raise AnalysisError('the list of state vectors not found')
    bad, und, nd = None, None, 0
    # meshes of every dimension, taking everything or refusing everything, the vectors in two orders and on entities of every type
    cases = [(3, 3, TRUE, 'ALL', False), (2, 2, TRUE, 'PARALLEL_OWNED', False), (3, 2, TRUE, 'ALL', True), (1, 1, TRUE, 'ALL', False), (2, 1, TRUE, 'PARALLEL_GHOST', True), (3, 3, FALSE, 'ALL', False)]
    for d, md, ans, ty, rev in cases:
        stored = []

        def store(I, st, e):
            stored.append((argterm(I, e, 0, st), argterm(I, e, 1, st), argterm(I, e, 2, st), noref(e['pt'][2]).rstrip('* '), st.pc))
            return ans
        h = base(F, {'Jali::Mesh::store_field': store, 'Jali::Mesh::space_dimension': lambda I, st, e: C(d), 'Jali::Mesh::manifold_dimension': lambda I, st, e: C(md)})
        h.deref = True
        objs = []
        for i, c in enumerate(vs):
            for kind in ('CELL', 'NODE'):
                o = mk(('new', 910 + 2 * i + (kind == 'NODE'), c))
                nm = 'v%d%s' % (i, kind)
                p = mk(('new', 1000 + 2 * i + (kind == 'NODE'), 'data'))
                for b in [c] + F.bases(c):
                    for x in F.classes[b]['fields']:
                        if 'basic_string' in x['t'] and 'vector' not in x['t']: h.m[fl(h, F, o, b, x)] = C(nm)
                        elif 'Entity_kind' in x['t']: h.m[fl(h, F, o, b, x)] = C(K[kind])
                        elif 'Entity_type' in x['t']: h.m[fl(h, F, o, b, x)] = C(T_[ty])
                        elif x['t'].startswith('std::shared_ptr<std::vector'): h.m[fl(h, F, o, b, x)] = p
                h.m[mk(('deref', p))] = lst((('sym', 'a'), ('sym', 'b')))
                objs.append((o, c, nm, K[kind], p))
        if rev: objs.reverse()
        h.m[mk(('fld', ST, sv[0].get('qn') or 'Jali::State::' + sv[0]['n']))] = lst(tuple(o for o, *_ in objs))
        h.unroll = 64
        h.call(f, ST)
        if any(s[4] != TRUE for s in stored): und = 'a vector is stored if %s' % short([s[4] for s in stored if s[4] != TRUE][0])
        where = ' (a mesh of dimension %d in %d dimensions%s, entities of type %s)' % (md, d, '' if ans == TRUE else ' that takes nothing', ty)
        for o, c, nm, k, p in objs:
            _, T, dom = c16.cls_info(F, c)[:3]
            mine = [s for s in stored if s[0] == C(nm)]
            out = 'UniState' in c and dom == 'Jali::Mesh' and T in ('int', 'double', 'std::array<double, 2>', 'std::array<double, 3>', 'std::array<double, 6>')
            what = c.replace('Jali::', '')
            nd += 1
            if not out and mine: bad = bad or '%s is stored as a field' % what + where
            if out:
                if len(mine) != 1: bad = bad or '%s is stored %d times' % (what, len(mine)) + where; continue
                s = mine[0]
                if s[1] != C(k): bad = bad or '%s on kind %d is stored on kind %s' % (what, k, show(s[1])) + where
                if s[3] != T: bad = bad or '%s is stored as %s' % (what, s[3]) + where
                if mk(s[2]) != mk(('addr', ('elem', ('deref', p), C(0)))): bad = bad or '%s is stored from %s' % (what, short(s[2])) + where
        for x in h.I.events:
            if x.kind == 'deref' and x.d['ptr'] == NULL and x.pc == TRUE: bad = bad or 'a null pointer is used in %s, line %d' % (x.fn, x.line)
        unknown = [s for s in stored if not any(s[0] == C(o[2]) for o in objs)]
        if unknown: bad = bad or 'something is stored under the name %s' % show(unknown[0][0]) + where
    ck.count('exported_vectors', nd)
    ck.need(nd, 48, 'vectors to export')
    ck.ob('single-value vectors on the mesh are stored under their names and kinds from their data, and no others', False if bad else None if und else True, at(f), bad or und or '', 'out')


def block(h, F, o):
    """the field that points to the values"""
    for b in [o[2]] + F.bases(o[2]):
        for x in F.classes[b]['fields']:
            if x['t'].startswith('std::shared_ptr<std::vector'): return fl(h, F, o, b, x)
    raise AnalysisError('the values of %s not found' % o[2])


def fl(h, F, o, cls, x):
    return mk(('fld', o, x.get('qn') or F.classes[cls]['qn'] + '::' + x['n']))
