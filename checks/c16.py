"""C16: the state manager finds what was added, once, under its name, kind and domain."""
from .common import *

RULE = ('Every instantiation of State::find is evaluated over lists of two registered vectors, for every pair of state vector classes the library instantiates: the iterator returned must be '
        'that of the first vector matching the arguments, or the end. Every instantiation of State::get must look up exactly the arguments given and, exactly when the lookup finds something, '
        'return true and give the vector found. Every instantiation of State::add must, when the lookup finds nothing, append one vector made from its arguments, its name, and its '
        'position under its kind, and otherwise change nothing and give the vector found. Iterators, sizes and subscripts are compared with the lists they stand for.')
ST = 'Jali::State::'
SV, NM, EI = ('fld', THIS, ST + 'state_vectors_'), ('fld', THIS, ST + 'names_'), ('fld', THIS, ST + 'entity_indexes_')
END = ('addr', ('elem', SV, size(('load', SV))))
ELEMS = (('sym', 'sv0'), ('sym', 'sv1'))


def strip(t):
    for p in ('std::shared_ptr<', ):
        if t.startswith(p): t = t[len(p):-1]
    for p in ('const ',):
        if t.startswith(p): t = t[len(p):]
    return t.strip()


def cls_info(F, t):
    """(UNIVAL/MULTIVAL, data type, domain type) of a state vector class"""
    for v in ('Uni', 'Multi'):
        p = 'Jali::%sStateVector<' % v
        if t.startswith(p):
            i, d = t.rfind(','), 0
            return v, t[len(p):i].strip(), t[i + 1:-1].strip()
    return None


def vectors(F):
    return sorted(t for t in F.classes if cls_info(F, t))


def derives(F, c, b): return c == b or b in F.bases(c)


def casts(F, t, of):
    m = {}
    for x in walk(t):
        c = cast_of(x)
        if c and c[1] in of: m[x] = c[1] if derives(F, of[c[1]], strip(c[0])) else C(0)
        elif x[0] == 'call' and x[1].split('::')[-1] == 'type' and len(x[2]) >= 1 and x[2][0] in of:
            m[x] = C(0 if cls_info(F, of[x[2][0]])[0] == 'Uni' else 1)
    return m


def cast_of(x):
    if x[0] == 'cast': return (x[1], x[2])
    if x[0] == 'call' and x[1] == 'cast': return (x[2][0] if isinstance(x[2][0], str) else x[2][0][1], x[2][1])
    return None


def check():
    ck = Check('C16', RULE)
    ck.bounds()
    F = ck.load('mesh', 'state', 'state_w')
    find_all(ck, F)
    get_all(ck, F)
    add_all(ck, F)
    simple(ck, F)
    return ck.finish()


# ---- find ------------------------------------------------------------------------
def getter(F, cls, o, name):
    """what a query of an object of that class computes"""
    for c in [cls] + F.bases(cls):
        for m in F.classes[c]['methods']:
            f = F.funcs.get(m['usr'])
            if m['n'] == name and f and f.get('body') is not None and not f['params']: return run(F, f, this=o).result
    raise AnalysisError('query %s of %s not found' % (name, cls))


def arg(f, what):
    for p in f['params']:
        if what(p['t']): return ('sym', p['n'])
    return None


def match(F, f, cls, o):
    ek, et = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
    name = arg(f, lambda t: t.startswith('std::basic_string'))
    dom = arg(f, lambda t: t.startswith('std::shared_ptr'))
    kind = arg(f, lambda t: 'Entity_kind' in t)
    typ = arg(f, lambda t: 'Entity_type' in t)
    v, T, D = cls_info(F, cls)
    ta = list(f.get('targs') or [])
    c = B_and(eq(getter(F, cls, o, 'name'), name),
              B_or(eq(kind, C(ek['ANY_KIND'])), eq(getter(F, cls, o, 'entity_kind'), kind)),
              B_or(eq(typ, C(et['ALL'])), eq(getter(F, cls, o, 'entity_type'), typ)))
    if dom is not None:
        dt = strip(next(p['t'] for p in f['params'] if p['t'].startswith('std::shared_ptr')))
        if dt != D: return FALSE
        c = B_and(c, eq(getter(F, cls, o, 'domain'), dom))
    for a in ta:
        if a.endswith('UNIVAL') and v != 'Uni' or a.endswith('MULTIVAL') and v != 'Multi': return FALSE
        if a in ('Jali::UniStateVector', 'Jali::MultiStateVector') and a != 'Jali::%sStateVector' % v: return FALSE
    exact = any(a in ('Jali::UniStateVector', 'Jali::MultiStateVector') for a in ta) or len(ta) == 3
    if exact and ta[0] != T: return FALSE
    return c


def find_all(ck, F):
    vs = vectors(F)
    ck.need(len(vs), 5, 'state vector classes')
    fs = [f for f in F.fns(ST + 'find') if f.get('body') is not None]
    ck.need(len(fs), 10, 'instantiations of find')
    ck.count('find_instantiations', len(fs))
    for f in fs:
        r = run(F, f, unroll=4, assume={SV: ('list', ELEMS)}).result
        ta = f.get('targs') or []
        what = 'find<%s>%s' % (', '.join(x.split('::')[-1] for x in ta), ' const' if f.get('const') else '')
        bad = None
        ok = True
        for a in vs:
            for b in vs:
                of = dict(zip(ELEMS, (a, b)))
                asm = B_and(*[B_not(eq(e, C(0))) for e in ELEMS])
                t = fix(subst(r, casts(F, r, of)), asm)
                m0, m1 = (match(F, f, of[e], e) for e in ELEMS)
                w = ite(m0, it(0), ite(m1, it(1), it(2)))
                w, t = simp(w, asm), simp(t, asm)
                if not same(t, w):
                    ok, bad = False, (a, b)
                    if any(x[0] in ('unk', 'seq', 'exits', 'fix') for x in walk(t)): ok = None
                    break
            if not ok: break
        ck.ob(what + ' gives the first vector that matches its arguments', ok, at(f),
              'it does not for registered vectors of type %s' % (' and '.join(bad) if bad else ''), 'find:' + what)


def it(i): return ('addr', ('elem', SV, C(i)))


# ---- get -------------------------------------------------------------------------
def findcalls(t):
    return set(x for x in walk(t) if x[0] == 'call' and x[1] == ST + 'find')


def get_all(ck, F):
    fs = [f for f in F.fns(ST + 'get') if f.get('body') is not None]
    ck.need(len(fs), 8, 'instantiations of get')
    ck.count('get_instantiations', len(fs))
    ek, et = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
    for f in fs:
        I = run(F, f, opaque=[ST + 'find'])
        ta = f.get('targs') or []
        out = f['params'][-1]
        what = 'get<%s>(%s)%s' % (', '.join(x.split('::')[-1] for x in ta), ', '.join(p['n'] for p in f['params']), ' const' if f.get('const') else '')
        calls = findcalls(I.result)
        if len(calls) != 1:
            ck.ob(what + ' looks the vector up', None if not calls else False, at(f), 'several lookups')
            continue
        c = list(calls)[0]
        name = arg(f, lambda t: t.startswith('std::basic_string'))
        doms = [p for p in f['params'][:-1] if p['t'].startswith('std::shared_ptr')]
        dom = ('sym', doms[0]['n']) if doms else ('load', mk(('fld', THIS, ST + 'mymesh_')))
        kind = arg(f, lambda t: 'Entity_kind' in t) or C(ek['ANY_KIND'])
        typ = arg(f, lambda t: 'Entity_type' in t) or C(et['ALL'])
        want = [name, dom, kind, typ]
        got = list(c[2])[-4:]
        ck.ob(what + ' looks up exactly what it was asked for', len(got) == 4 and all(same(val(a), val(b)) for a, b in zip(got, want)), at(f),
              'looks up (%s)' % ', '.join(short(x, 40) for x in got), 'lookup:' + what)
        cls = 'Jali::%s<%s, %s>' % (ta[2].split('::')[-1], ta[0], ta[1])
        g = next((e for e in I.events if e.kind == 'call' and e.d['name'] == ST + 'find'), None)
        tf = F.funcs.get(g.d['usr']) if g else None
        if tf: ck.ob(what + ' looks for vectors of its own class', tf.get('targs') == ta, at(f), 'looks for %s' % tf.get('targs'), 'class:' + what)
        found = B_not(eq(c, END))
        if not same(I.result, found) and any(x[0] == 'unk' for x in walk(I.result)): ok = None
        else: ok = same(val(I.result), found)
        ck.ob(what + ' says whether it found the vector', ok, at(f), 'returns ' + short(I.result), 'says:' + what)
        src = deref(c)
        o = ('sym', out['n'])
        if 'shared_ptr' in out['t']:
            loc = ('deref', o)
            v = I.read(I.final, loc)
            fnd, nf = fix(v, found), fix(v, B_not(found))
            cc = cast_of(fnd) or (cls, fnd)
            ck.ob(what + ' gives the vector found and leaves the pointer alone otherwise', cc[1] == src and strip(cc[0]) == cls and nf == ('load', loc), at(f),
                  'gives ' + short(v), 'gives:' + what)
        else:
            for c2, fl in fields(F, cls):
                loc = mk(('fld', o, c2['qn'] + '::' + fl['n']))
                v = I.read(I.final, loc)
                fnd, nf = fix(v, found), fix(v, B_not(found))
                m = {}
                for x in walk(fnd):
                    y = cast_of(x)
                    if y and y[1] == src and strip(y[0]) == cls: m[x] = src
                fnd = subst(fnd, m)
                w = ('load', mk(('fld', src, c2['qn'] + '::' + fl['n'])))
                ok = fnd == w and nf == ('load', loc)
                ck.ob(what + ' gives the %s of the vector found and changes nothing otherwise' % fl['n'], ok, at(f), 'gives ' + short(v), 'gives:%s:%s' % (what, fl['n']))


def deref(p): return ('load', ('deref', p))


def val(t): return t[2] if t[0] == 'typed' else t


def fields(F, t):
    c = F.classes.get(t)
    if c is None: raise AnalysisError('class %s not found' % t)
    out = []
    for b in c['bases']: out += fields(F, b)
    return out + [(c, f) for f in c['fields']]


# ---- add -------------------------------------------------------------------------
def add_all(ck, F):
    fs = [f for f in F.fns(ST + 'add') if f.get('body') is not None]
    ck.need(len(fs), 10, 'instantiations of add')
    ck.count('add_instantiations', len(fs))
    for f in fs: add_one(ck, F, f)


def add_one(ck, F, f):
    NE = ['Jali::Mesh::num_entities', 'Jali::MeshTile::num_entities', 'Jali::MeshSet::num_entities']
    I = run(F, f, opaque=[ST + 'find'] + NE)
    ta = f.get('targs') or []
    what = 'add<%s>(%s)' % (', '.join(x.split('::')[-1] for x in ta), ', '.join(p['n'] for p in f['params']))
    calls = findcalls(I.result)
    if len(calls) != 1:
        ck.ob(what + ' looks for an earlier vector', None if calls else False, at(f), 'no lookup')
        return
    c = list(calls)[0]
    copy = len(f['params']) == 1
    rt = strip(f['ret'].rstrip('& ').strip()) if f.get('ret') else None
    v = 'Jali::UniStateVector' if rt and 'UniState' in rt or ta[-1] == 'Jali::UniStateVector' else 'Jali::MultiStateVector'
    if copy:
        o = ('addr', ('pref', f['params'][0]['n']))
        st0 = St({('pref', f['params'][0]['n']): ('sym', f['params'][0]['n'])})
        cls = strip(noref(f['params'][0]['t']))
        src = {fl['n']: I.read(st0, mk(('fld', o, c2['qn'] + '::' + fl['n']))) for c2, fl in fields(F, cls)}
        name, dom, kind, typ = src['myname_'], src['mydomain_'], src['entity_kind_'], src['entity_type_']
    else:
        name = arg(f, lambda t: t.startswith('std::basic_string'))
        dom = arg(f, lambda t: t.startswith('std::shared_ptr'))
        kind = arg(f, lambda t: 'Entity_kind' in t)
        typ = arg(f, lambda t: 'Entity_type' in t)
        cls = '%s<%s, %s>' % (v, ta[0], ta[1])
        src = None
    got = list(c[2])[-4:]
    ck.ob(what + ' looks for a vector of that name, domain, kind and type', all(same(val(a), val(b)) for a, b in zip(got, [name, dom, kind, typ])), at(f),
          'looks up (%s)' % ', '.join(short(x, 40) for x in got), 'lookup:' + what)
    g = next((e for e in I.events if e.kind == 'call' and e.d['name'] == ST + 'find'), None)
    tf = F.funcs.get(g.d['usr']) if g else None
    if tf:
        want = cls_info(F, cls)
        ck.ob(what + ' looks for vectors of its own class', (tf.get('targs') or [])[:2] == [want[1], want[2]] and (tf.get('targs') or [])[-1] == 'Jali::%sStateVector' % want[0],
              at(f), 'looks for %s' % tf.get('targs'), 'class:' + what)
    found = B_not(eq(c, END))
    fin = I.final
    ck.ob(what + ' returns on every path', fin.pc == TRUE, at(f), '', 'returns:' + what)
    for l, n in ((SV, 'the vectors'), (NM, 'the names'), (EI, 'the positions')):
        t = fix(I.read(fin, l), found)
        ck.ob(what + ' leaves %s alone when there is such a vector' % n, t == ('load', l), at(f), 'has ' + short(t), 'dup:%s:%s' % (what, n))
    r = fix(I.result, found)
    m = {}
    for x in walk(r):
        y = cast_of(x)
        if y and y[1] == deref(c) and strip(y[0]) == cls: m[x] = deref(c)
    r = subst(r, m)
    ck.ob(what + ' gives the vector found when there is one', r in (('addr', ('deref', deref(c))), deref(c)), at(f), 'gives ' + short(r), 'dupres:' + what)
    nf = B_not(found)
    vs = fix(I.read(fin, SV), nf)
    new = vs[2] if vs[0] == 'append' else None
    vec = B_and(nf)
    ok = vs[0] == 'append' and vs[1] == ('load', SV)
    ck.ob(what + ' appends one vector', ok, at(f), 'has ' + short(vs), 'append:' + what)
    t = fix(I.read(fin, NM), nf)
    ck.ob(what + ' appends its name', same(t, append(('load', NM), name)), at(f), 'has ' + short(t), 'name:' + what)
    t = fix(I.read(fin, EI), nf)
    w = store(('load', EI), kind, append(index(('load', EI), kind), size(('load', SV))))
    ck.ob(what + ' enters its position under its kind', same(t, w), at(f), 'has ' + short(t), 'kind:' + what)
    if not ok: return
    cases = [(TRUE, new)] if new[0] != 'ite' else [(new[1], new[2]), (B_not(new[1]), new[3])]
    for cond, obj in cases:
        asm = B_and(nf, cond)
        if asm == FALSE: continue
        if obj[0] == 'cast': obj = obj[2]
        ck.ob(what + ' makes a vector of its class', obj[0] == 'new' and strip(obj[2]) == cls, at(f), 'makes ' + short(obj), 'made:' + what)
        r = fix(I.result, asm)
        y = subst(r, {x: cast_of(x)[1] for x in walk(r) if cast_of(x) and strip(cast_of(x)[0]) == cls})
        if y[0] == 'addr' and y[1][0] == 'deref': y = fix(y[1][1], asm)
        idx = ('addr', ('deref', obj))
        ck.ob(what + ' gives the vector added', y in (idx, obj) or y == index(fix(I.read(fin, SV), asm), size(('load', SV))), at(f),
              'gives ' + short(y), 'res:' + what)
        foreign = copy and cond != TRUE and not is_copy_case(I, fin, cond, obj, src, cls, F)
        for c2, fl in fields(F, cls):
            t = fix(I.read(fin, mk(('fld', obj, c2['qn'] + '::' + fl['n']))), asm)
            n = fl['n']
            if n == 'mydata_':
                data(ck, F, f, I, what, cls, obj, t, asm, copy, foreign, src)
                continue
            w = {'myname_': name, 'mydomain_': dom, 'entity_kind_': kind, 'entity_type_': typ, 'mystate_': THIS}.get(n)
            if copy and not foreign and n == 'mystate_': w = src[n]
            if copy and foreign and n == 'mydomain_': w = ('load', mk(('fld', THIS, ST + 'mymesh_')))
            if w is None: continue
            a = val(t)
            if a[0] == 'call' and a[1] == 'lock': a = a[2][0]
            ck.ob(what + ' gives the new vector its %s' % n, same(a, val(w)), at(f), 'has ' + short(t), 'field:%s:%s:%s' % (what, n, foreign))


def is_copy_case(I, fin, cond, obj, src, cls, F):
    """the vector was on the mesh of this state"""
    m = ('load', mk(('fld', THIS, ST + 'mymesh_')))
    for a in b_atoms(cond):
        if a[0] == 'eq' and m in a[1:]: return implies(cond, atom(a)) if True else None
    for c2, fl in fields(F, cls):
        if fl['n'] == 'mydomain_':
            return fix(I.read(fin, mk(('fld', obj, c2['qn'] + '::' + fl['n']))), cond) == src['mydomain_']
    return False


def data(ck, F, f, I, what, cls, obj, t, asm, copy, foreign, src):
    """the contents of the new vector are those of the constructor called with the arguments"""
    w = cls_info(F, cls)
    if t[0] == 'ite':
        for c in (t[1], B_not(t[1])):
            if B_and(asm, c) != FALSE: data(ck, F, f, I, what, cls, obj, fix(t, B_and(asm, c)), B_and(asm, c), copy, foreign, src)
        return
    blk = fix(I.read(I.final, ('deref', t)), asm)
    ck.ob(what + ' gives the new vector a block of its own', t[0] == 'new', at(f), 'has ' + short(t), 'own:%s:%s' % (what, foreign))
    if copy and not foreign:
        s0 = ('load', ('deref', src['mydata_']))
        ck.ob(what + ' copies the contents', same(blk, s0), at(f), 'has ' + short(blk), 'data:%s:%s' % (what, foreign))
        return
    if w[0] != 'Uni' or copy: return
    dom, kind, typ = (arg(f, lambda t: t.startswith('std::shared_ptr')), arg(f, lambda t: 'Entity_kind' in t), arg(f, lambda t: 'Entity_type' in t))
    ns = [e.d.get('term') for e in I.events if e.kind == 'call' and e.d['name'].endswith('::num_entities') and e.d.get('obj') == dom and [val(x) for x in e.d['args']] == [kind, typ]]
    if not ns:
        ck.ob(what + ' sizes the vector', None)
        return
    ck.ob(what + ' makes a vector with one value per entity', same(size(blk), ns[0]), at(f), 'has ' + short(size(blk)), 'size:' + what)
    i = ('sym', 'i#')
    last = f['params'][-1]
    if 'Entity_type' in last['t']: return
    d = ('sym', last['n'])
    el = val(index(blk, i))
    if '*' in last['t']:
        if B_and(asm, B_not(eq(d, C(0)))) == FALSE: return
        ck.ob(what + ' fills the vector with the data given', el == ('load', ('elem', ('arr', d), i)), at(f), 'has ' + short(el), 'data:' + what)
    else:
        ck.ob(what + ' fills the vector with the value given', same(el, d), at(f), 'has ' + short(el), 'data:' + what)


# ---- iterators -------------------------------------------------------------------
def simple(ck, F):
    def perm(l, k, e):
        ix = mk(('elem', EI, k))
        return ('addr', ('elem', l, C(0))), ('addr', ('elem', ix, size(index(('load', EI), k)) if e else C(0)))
    for n, w in (('begin', it(0)), ('cbegin', it(0)), ('end', END), ('cend', END), ('names_begin', ('addr', ('elem', NM, C(0)))),
                 ('names_end', ('addr', ('elem', NM, size(('load', NM))))), ('size', size(('load', SV))), ('mesh', ('load', mk(('fld', THIS, ST + 'mymesh_'))))):
        for f in F.fns(ST + n):
            r = run(F, f).result
            ck.ob('%s of the state manager' % n, same(val(r), w), at(f), 'gives ' + short(r), 'q:' + n)
    for f in F.fns(ST + 'operator[]'):
        r = run(F, f).result
        ck.ob('state[i] is the i\'th vector', same(val(r), index(('load', SV), ('sym', f['params'][0]['n']))), at(f), 'gives ' + short(r), 'q:[]')
    for n, l, e in (('entity_begin', SV, 0), ('entity_end', SV, 1), ('names_entity_begin', NM, 0), ('names_entity_end', NM, 1)):
        for f in F.fns(ST + n):
            r = run(F, f).result
            k = ('sym', f['params'][0]['n'])
            ok = None
            if r[0] == 'call':
                a = [x for x in r[2] if isinstance(x, tuple) and x and x[0] == 'addr']
                p, q = perm(l, k, e)
                ok = len(a) == 2 and same(a[0], p) and same(a[1], q)
            ck.ob('%s visits the %s of the kind asked for' % (n, 'vectors' if l is SV else 'names'), ok, at(f), 'gives ' + short(r), 'q:' + n)
