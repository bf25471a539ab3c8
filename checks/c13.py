"""C13: a mesh set stays a set: lists by type, all entities and positions agree after every change."""
import itertools, random
from .objs import *

RULE = ('The constructor, the mutators and the queries of mesh sets are evaluated over an abstract mesh whose entities are representatives of each type (owned, ghost, boundary ghost) in interleaved '
        'numberings: from every constructed set of up to three entities, with and without a reverse map, every addition and removal of up to three entities, and sequences of two of them, must '
        'leave the owned, ghost and complete lists, the counts and the position of every entity in agreement with the mathematical set.')
MS = 'Jali::MeshSet::'
PATTERNS = ('OOOGGB', 'GOBOGO')
N = 6


def check():
    ck = Check('C13', RULE)
    F = ck.load('mesh')
    ck.bounds()
    S = Sets(F)
    for pat in PATTERNS: whole(ck, S, pat)
    large(ck, S)
    ck.count('evaluations', S.n)
    return ck.finish()


class Sets:
    """mesh sets on an abstract mesh"""

    def __init__(self, F):
        self.F = F
        self.et = F.enum('Jali::Entity_type')
        fs = F.fns(MS + 'entities')
        self.acc = {}
        for f in fs:
            for t in ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'ALL'):
                if (f.get('targs') or []) == [targ(t)]: self.acc[t] = f
        if len(self.acc) < 3: raise AnalysisError('entities() of mesh sets: instantiations %s found' % sorted(self.acc))
        self.n = 0
        self.ctor = next((f for f in F.fns(MS + 'MeshSet') if f['kind'] == 'ctor'), None)
        if not self.ctor: raise AnalysisError('constructor of mesh sets not found')
        self.P = {}
        for p in self.ctor['params']:
            k = 'map' if p['t'] == 'bool' else 'mesh' if 'Mesh' in p['t'] else 'kind' if 'Entity_kind' in p['t'] else 'name' if 'basic_string' in p['t'] else 'list'
            self.P.setdefault(k, []).append(p['n'])
        self.index = F.fn(MS + 'index_in_set')
        self.num = {len(f['params']): f for f in F.fns(MS + 'num_entities')}
        self.MESH = ('addr', ('sym', 'MESH'))

    def hooks(self, pat):
        et = self.et
        ty = {'O': et['PARALLEL_OWNED'], 'G': et['PARALLEL_GHOST'], 'B': et['BOUNDARY_GHOST']}

        def gt(I, st, e):
            k, x = argterm(I, e, 0, st), argterm(I, e, 1, st)
            if is_num(x) and 0 <= x[1] < len(pat): return C(ty[pat[x[1]]])
            if is_num(x): I.misfit(st, 'asks for the type of entity %d of %d' % (x[1], len(pat)))
            return None

        def num(I, st, e):
            k = argterm(I, e, 1, st)
            if not is_num(k): return None
            for c, v in ty.items():
                if v == k[1]: return C(pat.count(c))
            return C(pat.count('O') + pat.count('G') if k[1] == et['ALL'] else 0)

        def ids(want):
            return lambda I, st, e: None
        return {'Jali::Mesh::entity_get_type': gt, 'Jali::Mesh::num_entities': num}

    def heap(self, pat, **kw):
        # a mesh of len(pat) entities numbers its boundary ghosts last in the arrays; the reverse map covers them too
        return Heap(self.F, hooks=self.hooks(pat), **kw)

    def make(self, h, owned, ghost, rev, this=THIS, name=None):
        self.n += 1
        h.call(self.ctor, this, {self.P['name'][0]: name or ('sym', 'NAME'), self.P['mesh'][0]: ('sym', 'MESH'), self.P['kind'][0]: ('sym', 'KIND'),
                                 self.P['list'][0]: lst_of(owned), self.P['list'][1]: lst_of(ghost), self.P['map'][0]: TRUE if rev else FALSE})

    def see(self, h, this=THIS):
        """(owned, ghost, all) lists, counts, positions"""
        self.n += 1
        return {t: ints(h.see(f, this)) for t, f in self.acc.items()}

    def positions(self, h, n, this=THIS):
        out = []
        for e in range(n):
            r = h.see(self.index, this, {self.index['params'][0]['n']: C(e)})
            out.append(r[1] if r is not None and is_num(r) else None)
        return out

    def counts(self, h, this=THIS):
        out = []
        for t in ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'ALL'):
            f = self.num.get(1)
            r = h.see(f, this, {f['params'][0]['n']: C(self.et[t])})
            out.append(r[1] if is_num(r) else None)
        f = self.num.get(2)
        if f:
            for t in ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'ALL'):
                r = h.see(f, this, {f['params'][0]['n']: ('sym', 'KIND'), f['params'][1]['n']: C(self.et[t])})
                out.append(r[1] if is_num(r) else None)
        return out

    def ids(self, pat, c): return [i for i, x in enumerate(pat) if x == c]


def subsets(xs, most):
    for k in range(min(most, len(xs)) + 1):
        for s in itertools.permutations(xs, k): yield list(s)


def agree(S, h, pat, O, G, ordered=True, n=None, this=THIS):
    """None: undecided, '' fine, else what is wrong"""
    v = S.see(h, this)
    o, g, a = v['PARALLEL_OWNED'], v['PARALLEL_GHOST'], v['ALL']
    for x in (o, g, a):
        if x is False: return 'an entry outside a list is written'
    if o is None or g is None or a is None: return None
    eqv = (lambda x, y: x == y) if ordered else (lambda x, y: sorted(x) == sorted(y))
    if not eqv(o, O): return 'the owned entities are %s, not %s' % (o, O)
    if not eqv(g, G): return 'the ghost entities are %s, not %s' % (g, G)
    if a != o + g: return 'all entities are %s, the owned ones %s and the ghost ones %s' % (a, o, g)
    c = S.counts(h, this)
    if any(x is None for x in c): return None
    if c[:3] != [len(o), len(g), len(a)] or c[3:] not in ([], c[:3]): return 'the counts are %s for %d, %d and %d entities' % (c, len(o), len(g), len(a))
    top = n if n is not None else len(pat) - (1 if pat.endswith('B') else 0)
    p = S.positions(h, top, this)
    if any(x is None for x in p): return None
    w = [a.index(e) if e in a else -1 for e in range(top)]
    if p != w: return 'the positions of entities 0..%d are %s, not %s' % (top - 1, p, w)
    return ''


def whole(ck, S, pat):
    F = S.F
    own, gho, bnd = (S.ids(pat, c) for c in 'OGB')
    # the reverse map has an entry for each of the entities of the mesh: number them all
    hooks = S.hooks(pat)
    et = S.et

    def num(I, st, e):
        k = argterm(I, e, 1, st)
        return C(len(pat)) if is_num(k) and k[1] == et['ALL'] else hooks0(I, st, e)
    hooks0 = hooks['Jali::Mesh::num_entities']
    hooks['Jali::Mesh::num_entities'] = num
    start = {}
    for rev in (True, False):
        bad, und = None, False
        f = S.ctor
        for O in subsets(own, 2):
            for G in subsets(gho, 2):
                h = Heap(F, hooks=hooks)
                S.make(h, O, G, rev)
                r = agree(S, h, pat, O, G, n=len(pat))
                if r is None: und = True
                elif r: bad = bad or 'from %s and %s: %s' % (O, G, r)
                start[(tuple(O), tuple(G), rev)] = h
        report(ck, f, 'a set made from lists has exactly their entities (%s)' % ('with reverse map' if rev else 'without'), bad, und, 'ctor:%s' % rev)
    for n, arg in (('name', ('sym', 'NAME')), ('kind', ('sym', 'KIND'))):
        for g in F.fns(MS + n):
            h = next(iter(start.values()))
            r = h.see(g)
            ck.ob('%s() of a mesh set is what it was made with' % n, r == arg, at(g), 'gives ' + short(r), 'q:' + n)
    ops = {}
    for n in ('add_entity', 'rem_entity', 'add_entities', 'rem_entities', 'clear'): ops[n] = F.fn(MS + n)
    heaps = [(k, h) for k, h in start.items() if sorted(k[0]) == list(k[0]) and sorted(k[1]) == list(k[1])]
    if not ck.thorough:
        one = {}
        for k, h in heaps: one[(len(k[0]), len(k[1]), k[2])] = (k, h)
        heaps = list(one.values())
    lists = [list(x) for k in ((0, 1, 2, 3) if ck.thorough else (0, 1, 2)) for x in itertools.permutations(own[:3] + gho[:2] + bnd[:1], k)]
    if not ck.thorough: lists += [[own[0], gho[0], own[1]], [gho[0], own[1], own[0]], [own[1], bnd[0], gho[0]], [own[0], own[1], own[2]]]
    for n, f in ops.items():
        bad, und, done = {True: None, False: None}, False, 0
        for (O, G, rev), h0 in heaps:
            for l in lists:
                if n in ('add_entity', 'rem_entity') and len(l) != 1: continue
                if n == 'clear' and l: continue
                if n.startswith('add') and any(e in O or e in G for e in l): continue
                if len(l) == 3 and not (len(O) == 1 and len(G) == 1) and not n.startswith('rem'): continue
                if len(l) == 3 and n.startswith('rem') and len(O) + len(G) < 2: continue
                h = h0.copy()
                apply_(S, h, f, l)
                done += 1
                wO, wG = after(n, pat, list(O), list(G), l)
                r = agree(S, h, pat, wO, wG, ordered=n.startswith('add') or n == 'clear', n=len(pat))
                if r is None: und = True
                elif r and not bad[rev]: bad[rev] = '%s and %s after %s of %s: %s' % (list(O), list(G), n, l, r)
        for rev in (True, False):
            report(ck, f, '%s keeps the set, its lists and positions in agreement (%s)' % (n, 'with reverse map' if rev else 'without'), bad[rev], und, '%s:%s' % (n, rev))
        ck.count('operations', done)
    # one after the other
    bad, und = None, False
    for (O, G, rev), h0 in heaps:
        if len(O) + len(G) not in (1, 3): continue
        for n1, n2 in itertools.product(('add_entity', 'add_entities', 'rem_entity', 'rem_entities'), repeat=2):
            l1 = [e for e in (own + gho) if (e not in O and e not in G) == n1.startswith('add')][:1 if n1.endswith('y') else 2]
            if not l1: continue
            h = h0.copy()
            apply_(S, h, ops[n1], l1)
            wO, wG = after(n1, pat, list(O), list(G), l1)
            v = S.see(h)
            if None in (v['PARALLEL_OWNED'], v['PARALLEL_GHOST']) or False in (v['PARALLEL_OWNED'], v['PARALLEL_GHOST']): continue
            l2 = [e for e in (gho + own) if (e not in wO and e not in wG) == n2.startswith('add')][:1 if n2.endswith('y') else 2]
            if not l2: continue
            apply_(S, h, ops[n2], l2)
            xO, xG = after(n2, pat, wO, wG, l2)
            r = agree(S, h, pat, xO, xG, ordered=False, n=len(pat))
            if r is None: und = True
            elif r: bad = bad or '%s and %s after %s of %s and %s of %s: %s' % (list(O), list(G), n1, l1, n2, l2, r)
            # the same again, as a set removed twice
    report(ck, ops['add_entities'], 'two changes one after the other leave the set, its lists and positions in agreement', bad, und, 'sequence')
    bad, und = None, False
    for (O, G, rev), h0 in heaps:
        for e in list(O) + list(G):
            h = h0.copy()
            apply_(S, h, ops['rem_entities'], [e, e])
            wO, wG = after('rem', pat, list(O), list(G), [e])
            r = agree(S, h, pat, wO, wG, ordered=False, n=len(pat))
            if r is None: und = True
            elif r: bad = bad or '%s and %s without %s twice: %s' % (list(O), list(G), e, r)
    report(ck, ops['rem_entities'], 'an entity named twice for removal is removed, and nothing else', bad, und, 'rem-twice')


def numbered(S, pat):
    """hooks of a mesh that numbers all its entities"""
    hooks = S.hooks(pat)
    base = hooks['Jali::Mesh::num_entities']

    def num(I, st, e):
        k = argterm(I, e, 1, st)
        return C(len(pat)) if is_num(k) and k[1] == S.et['ALL'] else base(I, st, e)
    hooks['Jali::Mesh::num_entities'] = num
    return hooks


def large(ck, S):
    """sets of many entities through many changes"""
    F = S.F
    R = random.Random(7)
    pat = ''.join(R.choice('OOOOOGGGG') for _ in range(44)) + 'BB'
    hooks = numbered(S, pat)
    both = [i for i, c in enumerate(pat) if c in 'OG']
    ops = ['add_entities', 'rem_entities', 'add_entity', 'rem_entity', 'add_entities', 'rem_entities']
    for rev in (True, False):
        bad, und = None, False
        for k in range(8 if ck.thorough else 4):
            l = R.sample(both, (0, 12, 25, 31)[k % 4])
            O, G = [e for e in l if pat[e] == 'O'], [e for e in l if pat[e] == 'G']
            h = Heap(F, hooks=hooks, unroll=200)
            S.make(h, O, G, rev)
            for j, n in enumerate(ops * 2):
                rest = [e for e in both if (e in O or e in G) == n.startswith('rem')]
                if j == 4: rest = [e for e in rest if pat[e] == 'O']
                if j == 10: rest = [e for e in rest if pat[e] == 'G']
                c = R.sample(rest, min(len(rest), 1 if n.endswith('y') else (9, 14, 1, 1, 11, 8)[j % 6]))
                if not c: continue
                apply_(S, h, F.fn(MS + n), c)
                wO, wG = after(n, pat, O, G, c)
                v = S.see(h)
                r = agree(S, h, pat, wO, wG, ordered=False, n=len(pat))
                if r is None: und = True
                elif r: bad = bad or '%s and %s after %s of %s: %s' % (O, G, n, c, r)
                O, G = v['PARALLEL_OWNED'], v['PARALLEL_GHOST']
                if not O and O != [] or not G and G != []: break
        report(ck, F.fn(MS + 'rem_entities'), 'sets of many entities, their lists and positions agree after many changes (%s)' % ('with reverse map' if rev else 'without'), bad, und, 'large:%s' % rev)


def apply_(S, h, f, l):
    S.n += 1
    p = f['params'][0]['n'] if f['params'] else None
    h.call(f, params={} if p is None else {p: lst_of(l)} if 'vector' in f['params'][0]['t'] else {p: C(l[0])})


def after(n, pat, O, G, l):
    if n == 'clear': return [], []
    if n.startswith('add'): return O + [e for e in l if pat[e] == 'O'], G + [e for e in l if pat[e] == 'G']
    return [e for e in O if e not in l], [e for e in G if e not in l]


def report(ck, f, what, bad, und, key):
    ck.ob(what, False if bad else None if und else True, at(f), bad or '', key)
