"""C14: union, intersection, difference and complement of mesh sets are those of the sets of their entities."""
import itertools, random
from .objs import *
from .c13 import Sets, agree, N

RULE = ('The four set operations are evaluated over one to three mesh sets, made by the constructor from representatives of each type of entity in interleaved numberings: every combination of two '
        'small sets and selected triples, as temporaries or not, must give a set of its own with exactly the owned and ghost entities of the mathematical result, on the mesh and of the kind of '
        'its operands, coherent in the sense of C13, and registered with the mesh exactly when it is not temporary; the operands must be unchanged.')
OPS = ('merge', 'intersect', 'subtract', 'complement')
PATTERNS = ('OOGGB', 'GOBOG')
MANY = 'OGGOOGOOOGGOGOOGOOGGOOGB'


def OBJ(i): return mk(('new', 900 + i, 'Jali::MeshSet'))


def check():
    ck = Check('C14', RULE)
    F = ck.load('mesh')
    ck.bounds()
    S = Sets(F)
    ml = meshsets_loc(F)
    for pat in PATTERNS:
        for op in OPS: one(ck, S, F, op, pat, ml)
    for op in OPS: one(ck, S, F, op, MANY, ml)
    registry(ck, S, F)
    ck.count('evaluations', S.n)
    return ck.finish()


def meshsets_loc(F):
    for f in F.fns('Jali::Mesh::sets', nparams=0):
        l = loc_of(run(F, f, this=('sym', 'M')).result)
        if l: return lambda m: mk(subst(('load', l), {('sym', 'M'): m}))[1]
    raise AnalysisError('Mesh::sets() does not give a list')


def choices(pat, ck):
    ids = [i for i, c in enumerate(pat) if c in 'OG']
    own = [i for i in ids if pat[i] == 'O']
    gho = [i for i in ids if pat[i] == 'G']
    if pat == MANY:     # sets of many entities, and many sets
        R = random.Random(5)
        some = lambda xs, p: [x for x in R.sample(xs, len(xs)) if R.random() < p]
        return [[(some(own, p), some(gho, p)) for _ in range(k)] for k in (1, 2, 3, 4, 5, 6) for p in (.25, .6, .85) for _ in range(3 if ck.thorough else 1)]
    subs = lambda xs: [list(s) for k in range(len(xs) + 1) for s in itertools.combinations(xs, k)]
    all_ = [(o, g) for o in subs(own) for g in subs(gho)]
    pairs = list(itertools.product(all_, all_))
    if not ck.thorough: pairs = pairs[::3]
    mid = [all_[i] for i in (1, 5, 6, 9, 15, 11)]
    out = [[a] for a in all_] + [list(p) for p in pairs] + [list(t) for t in itertools.product(mid, repeat=3)][:: 1 if ck.thorough else 3]
    out += [[([own[1], own[0]], [gho[1]]), ([own[0]], [gho[1], gho[0]])]]
    return out


def expected(op, pat, sets):
    own = [i for i, c in enumerate(pat) if c == 'O']
    gho = [i for i, c in enumerate(pat) if c == 'G']
    res = []
    for k, full in ((0, own), (1, gho)):
        s = [set(x[k]) for x in sets]
        if op == 'merge': r = set().union(*s)
        elif op == 'intersect': r = set.intersection(*s)
        elif op == 'subtract': r = s[0] - set().union(*s[1:])
        else: r = set(full) - set().union(*s)
        res.append(sorted(r))
    return res


def operand(f, op, syms):
    """parameters for the operands"""
    P = {}
    rest = list(syms)
    for p in f['params']:
        if 'vector' in p['t']: P[p['n']] = ('list', tuple(rest)) if rest else EMPTY
        elif 'shared_ptr' in p['t']: P[p['n']] = rest.pop(0)
    return P


def one(ck, S, F, op, pat, ml):
    fs = [f for f in F.fns('Jali::' + op) if f.get('body') is not None]
    if len(fs) != 1: raise AnalysisError('Jali::%s: %d definitions' % (op, len(fs)))
    f = fs[0]
    tmp = next((p['n'] for p in f['params'] if p['t'] == 'bool'), None)
    big = ' (many)' if pat == MANY else ''
    names = ['has exactly the entities of the mathematical result', 'is a new set', 'has the mesh and kind of its operands', 'is registered with the mesh exactly if it is not temporary', 'leaves its operands alone']
    bad = dict.fromkeys(names)
    und = set()
    done = 0
    MESH = ('addr', ('pref', S.P['mesh'][0]))
    L = ml(MESH)
    for n, sets in enumerate(choices(pat, ck)):
        if op == 'subtract' and len(sets) < 2: continue
        h = Heap(F, hooks=dict(S.hooks(pat)), unroll=64)
        et = S.et
        base = h.hooks['Jali::Mesh::num_entities']

        def num(I, st, e):
            k = argterm(I, e, 1, st)
            return C(len(pat)) if is_num(k) and k[1] == et['ALL'] else base(I, st, e)
        h.hooks['Jali::Mesh::num_entities'] = num
        syms = [OBJ(i) for i in range(len(sets))]
        for s, (o, g), i in zip(syms, sets, range(9)): S.make(h, o, g, (n + i) % 3 != 0, this=s, name=C('ABCDEF'[i]))
        h.m[L] = ('list', (('sym', 'old'),))
        before = dict(h.m)
        temp = n % 2 == 0
        P = operand(f, op, syms)
        if tmp: P[tmp] = TRUE if temp else FALSE
        what = '%s of %s' % (op, ' and '.join('%s+%s' % x for x in sets))
        r = h.call(f, this=None, params=P)
        S.n += 1
        done += 1
        if r is None or h.I.final.pc != TRUE or r[0] == 'ite':
            und.update(names)
            continue
        if r in syms or r[0] != 'new':
            if r in syms: bad[names[1]] = bad[names[1]] or what + ' is one of its operands'
            else:
                und.update(names)
                continue
        wo, wg = expected(op, pat, sets)
        a = agree(S, h, pat, wo, wg, ordered=False, n=len(pat), this=r)
        if a is None: und.add(names[0])
        elif a: bad[names[0]] = bad[names[0]] or '%s: %s' % (what, a)
        for q, w in (('kind', ('sym', 'KIND')), ('mesh', None)):
            for g in F.fns('Jali::MeshSet::' + q):
                v, w = h.see(g, this=r), h.see(g, this=syms[0]) if w is None else w
                if q == 'mesh': v, w = h_loc(h, g, r), h_loc(h, g, syms[0])
                if v != w: bad[names[2]] = bad[names[2]] or '%s: %s() is %s' % (what, q, short(v) if v else v)
        reg = elems(h.m.get(L, EMPTY))
        if reg is None: und.add(names[3])
        else:
            w = (('sym', 'old'),) if temp else (('sym', 'old'), r)
            if tuple(reg) != w and r not in syms: bad[names[3]] = bad[names[3]] or '%s%s: the sets of the mesh are %s' % (what, ' (temporary)' if temp else '', short(('list', tuple(reg))))
        for l, v in before.items():
            if root(l) in syms and h.m.get(l) != v: bad[names[4]] = bad[names[4]] or '%s: %s' % (what, short(('load', l)))
    for w in names:
        ck.ob('the %s of mesh sets %s%s' % (op, w, big), False if bad[w] else None if w in und else True, at(f), bad[w] or '', '%s:%s%s' % (op, w, big))
    ck.count('operations', done)


def h_loc(h, g, this):
    h2 = h.copy()
    return h2.call(g, this)


def registry(ck, S, F):
    """add, find and count the sets of a mesh"""
    M = ('sym', 'M')
    ml = meshsets_loc(F)
    L = ml(M)
    ek = F.enum('Jali::Entity_kind')
    ents = [('A', 'CELL'), ('A', 'NODE'), ('B', 'CELL')]

    def fresh(k):
        h = Heap(F, hooks=S.hooks('OOGGB'))
        syms = []
        for i, (n, kd) in enumerate(ents[:k]):
            s = OBJ(i)
            S.n += 1
            h.call(S.ctor, s, {S.P['name'][0]: C(n), S.P['mesh'][0]: ('sym', 'MESH'), S.P['kind'][0]: C(ek[kd]), S.P['list'][0]: lst_of([0, 1]), S.P['list'][1]: lst_of([2]), S.P['map'][0]: FALSE})
            h.m[('pnn', s)] = TRUE
            syms.append(s)
        h.m[L] = ('list', tuple(syms)) if syms else EMPTY
        return h, syms
    nonnull = lambda t, syms: fix(t, B_and(*[B_not(eq(s, C(0))) for s in syms])) if t is not None and syms else t
    for f in F.fns('Jali::Mesh::add_set'):
        h, syms = fresh(2)
        h.call(f, M, {f['params'][0]['n']: ('sym', 'new')})
        ck.ob('add_set adds the set to those of the mesh', h.m[L] == ('list', tuple(syms) + (('sym', 'new'),)), at(f), 'gives ' + short(h.m[L]), 'add_set')
    for f in F.fns('Jali::Mesh::find_meshset'):
        bad = und = None
        for k in range(4):
            h, syms = fresh(k)
            for n in 'ABX':
                for kd in ('CELL', 'NODE', 'FACE'):
                    r = nonnull(h.see(f, M, {f['params'][0]['n']: C(n), f['params'][1]['n']: C(ek[kd])}), syms)
                    w = next((s for s, x in zip(syms, ents) if x == (n, kd)), C(0))
                    if r is None or r[0] == 'ite': und = True
                    elif r != w: bad = 'finds %s for %s of kind %s among %s' % (short(r), n, kd, ents[:k])
        ck.ob('find_meshset finds the set of that name and kind, or nothing', False if bad else None if und else True, at(f), bad or '', 'find')
    for f in F.fns('Jali::Mesh::num_sets'):
        for kd in ('CELL', 'NODE', 'FACE', 'ANY_KIND'):
            h, syms = fresh(3)
            r = h.see(f, M, {f['params'][0]['n']: C(ek[kd])})
            w = len([1 for x in ents if kd in (x[1], 'ANY_KIND')])
            ck.ob('num_sets counts the sets of kind %s' % kd, None if r is None or not is_num(r) else r == C(w), at(f), 'gives ' + (short(r) if r else '?'), 'num:' + kd)
    for f in F.fns('Jali::Mesh::sets', nparams=1):
        for kd in ('CELL', 'NODE', 'FACE', 'ANY_KIND'):
            h, syms = fresh(3)
            r = h.see(f, M, {f['params'][0]['n']: C(ek[kd])})
            e = elems(r) if r is not None else None
            w = tuple(s for s, x in zip(syms, ents) if kd in (x[1], 'ANY_KIND'))
            ck.ob('sets(kind) gives the sets of kind %s' % kd, None if e is None else tuple(e) == w, at(f), 'gives ' + (short(r) if r else '?'), 'sets:' + kd)
    et = S.et
    for n in ('get_set_size', 'get_set_entities'):
        for f in F.fns('Jali::Mesh::' + n):
            bad = und = None
            names = [p['n'] for p in f['params']]
            for (nm, kd), there in ((ents[0], 1), (ents[1], 1), (('X', 'CELL'), 0), (('B', 'NODE'), 0)):
                for t, w in (('PARALLEL_OWNED', [0, 1]), ('PARALLEL_GHOST', [2]), ('ALL', [0, 1, 2])):
                    h, syms = fresh(3)
                    P = {names[0]: C(nm), names[1]: C(ek[kd]), names[2]: C(et[t])}
                    asm = B_and(*[B_not(eq(s, C(0))) for s in syms])
                    if n == 'get_set_size':
                        r = h.see(f, M, P)
                        r = fix(r, asm) if r is not None else None
                        got = r[1] if r is not None and is_num(r) else None
                        want = len(w) if there else 0
                    else:
                        out = ('addr', ('sym', 'OUT'))
                        P[names[3]] = out
                        h.m[('sym', 'OUT')] = lst_of([7])
                        h.call(f, M, P)
                        got = ints(fix(h.m[('sym', 'OUT')], asm))
                        want = w if there else []
                    if got is None: und = True
                    elif got != want: bad = '%s for %s of kind %s gives %s' % (t, nm, kd, got)
            ck.ob('%s asks the set of that name and kind%s' % (n, ' (const)' if f.get('const') else ''), False if bad else None if und else True, at(f), bad or '', '%s:%s' % (n, f.get('const')))
