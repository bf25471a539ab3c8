"""Entity counts, id lists and their all / owned / ghost composition."""
import itertools
from .common import *

RULE = ('Every counting and listing query of a mesh, a tile and a set is evaluated symbolically for every (kind, type) pair and '
        'compared with the length of the id list of that kind and type; every function that fills an id list is summarised and the '
        '"all" list it leaves must be the owned, ghost (and boundary ghost) lists put together: equal as a value, or entered element '
        'by element under guards of which exactly one of the parts holds.')
OPQ = None


def accessors_ok(c, F, cls):
    acc = accessors(F, cls)
    c.need(len(acc), 15, 'id list accessors of ' + cls)
    seen = {}
    for (k, t), (loc, f) in sorted(acc.items()):
        c.ob('%s %ss<%s> designates a list of its own' % (cls, k, t),
             (loc is not None and loc not in seen) if loc is not None else None, at(f),
             'returns the list of %s' % (seen.get(loc),), 'list:%s:%s:%s' % (cls, k, t))
        if loc is not None: seen.setdefault(loc, (k, t))
    return acc


def want_count(acc, k, t):
    """acceptable counts for (kind, type)"""
    L = lambda x: size(('load', acc[(k, x)][0]))
    if t == 'ALL':
        s = C(0)
        for x in TYPES[:3]:
            if (k, x) in acc: s = add(s, L(x))
        return [s, L('ALL')]
    return [L(t)]


def counts(c, F, cls, acc):
    n = 0
    for k in KINDS:
        for f in F.by_qn.get('%s::num_%ss' % (cls, k), []):
            ta = f.get('targs') or []
            t = next((x for x in TYPES if ta == [targ(x)]), None)
            if t is None or (k, t) not in acc: continue
            r = run(F, f).result
            n += 1
            c.ob('%s num_%ss<%s> is the length of its list' % (cls, k, t), r is not None and any(same(r, w) for w in want_count(acc, k, t)),
                 at(f), 'computes %s' % (short(r) if r else None), 'count:%s:%s:%s' % (cls, k, t))
    c.need(n, 15, 'counting queries of ' + cls)


def dispatch(c, F, cls, acc):
    ek, et = F.enum('Jali::Entity_kind'), F.enum('Jali::Entity_type')
    f = F.fn(cls + '::num_entities')
    for k in KINDS:
        for t in TYPES:
            ps = {}
            for i, p in enumerate(f['params']):
                if 'Entity_kind' in p['t']: ps[i] = C(ek[EKIND[k]])
                elif 'Entity_type' in p['t']: ps[i] = C(et[t])
            if len(ps) != 2: raise AnalysisError('num_entities parameters not recognised')
            r = run(F, f, params=ps).result
            what = '%s num_entities(%s, %s)' % (cls, EKIND[k], t)
            if (k, t) in acc:
                if t == 'BOUNDARY_GHOST' and r == C(0):
                    ok = None   # the run-time query does not serve this type
                else:
                    ok = r is not None and any(same(r, w) for w in want_count(acc, k, t))
                c.ob(what, ok, at(f), 'computes %s' % (short(r) if r else None), 'dispatch:%s:%s:%s' % (cls, k, t))


def meshset(c, F):
    cls = 'Jali::MeshSet'
    et = F.enum('Jali::Entity_type')
    acc = {}
    for f in F.by_qn.get(cls + '::entities', []):
        for t in TYPES:
            if (f.get('targs') or []) == [targ(t)]: acc[t] = (loc_of(run(F, f).result), f)
    c.need(len(acc), 3, 'id lists of a set')
    locs = [v[0] for v in acc.values()]
    for t, (l, f) in acc.items():
        c.ob('set entities<%s> designates a list of its own' % t, locs.count(l) == 1 if l is not None else None, at(f), '', 'list:set:' + t)
    fs = F.fns(cls + '::num_entities')
    c.need(len(fs), 1, 'counting queries of a set')
    for f, t in itertools.product(fs, TYPES):
        if t not in acc: continue
        r = run(F, f, params={i: C(et[t]) for i, p in enumerate(f['params']) if 'Entity_type' in p['t']}).result
        L = lambda x: size(('load', acc[x][0]))
        ws = [L(t)] + ([add(L('PARALLEL_OWNED'), L('PARALLEL_GHOST'))] if t == 'ALL' else [])
        c.ob('set num_entities(%s)' % t, r is not None and any(same(r, w) for w in ws), at(f),
             'computes %s' % (short(r) if r else None), 'count:set:' + t)
    return {('entity', t): v for t, v in acc.items()}


# ---- how the lists are filled ---------------------------------------------------
class Fill:
    """what one function leaves in the lists of one kind"""

    def __init__(self, I, acc, k):
        self.I, self.k = I, k
        self.loc = {t: acc[(k, t)][0] for t in TYPES if (k, t) in acc}
        self.written = [t for t, l in self.loc.items() if l in I.final.m]
        self.fin = {t: I.final.m.get(l, ('load', l)) for t, l in self.loc.items()}

    def emissions(self, t):
        out = []
        l = self.loc[t]
        for e in self.I.events:
            if e.d.get('loc') == l and e.kind == 'append':
                out.append((e, ('seq', e.d['seq']) if 'seq' in e.d else e.d['val']))
            elif e.kind == 'write' and e.d['loc'][0] == 'elem' and e.d['loc'][1] == l:
                out.append((e, e.d['val']))
        return out

    def value_ok(self):
        ps = [self.fin[t] for t in TYPES[:3] if t in self.fin]
        sets = [ps]
        if 'BOUNDARY_GHOST' in self.fin and 'BOUNDARY_GHOST' not in self.written:
            sets.append([self.fin[t] for t in TYPES[:2]])   # no boundary ghosts have been made
        for q in sets:
            for perm in itertools.permutations(q):
                s = perm[0]
                for p in perm[1:]: s = concat(s, p)
                if same_cases(self.fin['ALL'], s): return True
        return False


def types_of(g, et):
    """terms compared with entity types in a guard"""
    out = {}
    for a in b_atoms(g):
        if a[0] == 'eq' and is_c(a[1]) != is_c(a[2]):
            x, v = (a[2], a[1]) if is_c(a[1]) else (a[1], a[2])
            if v[1] in (1, 2, 3) and contains(x, lambda t: t[0] == 'fld' and t[2].endswith('_type') or t[0] == 'call' and 'entity_get_type' in t[1]):
                out[x] = 1
    return list(out)


def legal(x): return B_or(*[atom_eq(x, v) for v in (1, 2, 3)])


def atom_eq(x, v): return eq(x, C(v))


def partition_ok(fl, et):
    """element-wise entry: all-list emissions against those of the parts -> (ok, message, event)"""
    A = fl.emissions('ALL')
    P = {t: fl.emissions(t) for t in TYPES[:3] if t in fl.loc}
    # entered before the loops: the all list starts as a copy of a part?
    if not A: return None, 'not entered element by element', None
    used = set()
    for e, v in A:
        g = e.pc
        parts = [(t, x) for t in P for x, w in P[t] if x.loops == e.loops and w == v]
        if not parts: return False, 'an id enters the all-list but none of its parts', e
        for t, x in parts: used.add(x.seq)
        cover = FALSE
        for i, (t, x) in enumerate(parts):
            for t2, y in parts[i + 1:]:
                if sat(B_and(x.pc, y.pc)) is not None: return False, 'an id can enter two parts at once', y
            cover = B_or(cover, x.pc)
        gap = B_and(g, B_not(cover))
        for x in types_of(B_or(*[y.pc for _, y in parts]), et): gap = B_and(gap, legal(x))
        if sat(gap) is not None: return False, 'an id enters the all-list but, in some case, none of its parts', e
        if sat(B_and(cover, B_not(g))) is not None: return False, 'an id enters a part but, in some case, not the all-list', e
    for t in P:
        for x, v in P[t]:
            if x.seq not in used: return False, 'an id enters a part but not the all-list', x
    return True, '', None


def classify(c, fl, f, et, cls):
    """ids classified by an entity type must enter the list of that type"""
    code = {'PARALLEL_OWNED': 1, 'PARALLEL_GHOST': 2, 'BOUNDARY_GHOST': 3}
    n = 0
    for t in TYPES[:3]:
        if t not in fl.loc: continue
        for e, v in fl.emissions(t):
            for x in types_of(e.pc, et):
                bad = B_and(e.pc, legal(x), B_not(atom_eq(x, code[t])))
                if t == 'PARALLEL_GHOST' and 'BOUNDARY_GHOST' not in fl.loc: bad = B_and(bad, B_not(atom_eq(x, 3)))
                n += 1
                c.ob('%s: ids entered in the %s list of %ss are of that type' % (f['qn'], t, fl.k), sat(bad) is None, e.where(),
                     'entered when %s' % short(e.pc), 'class:%s:%s:%s' % (f['qn'], fl.k, t))
    return n


def counters(c, fl, f):
    """element-wise writes of different lists advance positions of their own"""
    pos = {}
    for t in TYPES:
        if t not in fl.loc: continue
        for e in fl.I.events:
            if e.kind == 'write' and e.d['loc'][0] == 'elem' and e.d['loc'][1] == fl.loc[t]:
                for x in walk(e.d['loc'][2]):
                    if x[0] == 'hav' and x[2][0] == 'var': pos.setdefault((tuple(l[0] for l in e.loops), x[2]), {}).setdefault(t, e)
    for (lp, v), ts in pos.items():
        c.ob('%s: position %s of %ss serves one list' % (f['qn'], v[3] if len(v) > 3 else v, fl.k), len(ts) == 1, list(ts.values())[-1].where(),
             'the lists %s are filled at the same running position' % ', '.join(ts), 'pos:%s:%s' % (f['qn'], fl.k))


def fills(c, F, acc, classes, least):
    et = F.enum('Jali::Entity_type')
    fields = {v[0][2]: (cls, k, t) for (cls, k, t), v in acc.items() if v[0] is not None and v[0][0] == 'fld'}
    names = {x.split('::')[-1] for x in fields}
    work = [f for f in F.funcs.values() if f.get('body') is not None and names & mentions(f) and
            not f.get('implicit') and f['kind'] not in ('copyctor', 'movector')]
    cg = callers(F)
    memo = {}

    def summary(f):
        if f['usr'] not in memo: memo[f['usr']] = run(F, f, depth=3, opaque=OPAQUE)
        return memo[f['usr']]

    def verdicts(f):
        """kind -> (ok, msg, where)"""
        I = summary(f)
        out = {}
        for cls in classes:
            a = {(k, t): v for (cl, k, t), v in acc.items() if cl == cls}
            for k in sorted({k for k, t in a}):
                fl = Fill(I, a, k)
                if not fl.written: continue
                if fl.value_ok(): out[(cls, k)] = (True, '', at(f), fl); continue
                ok, msg, ev = partition_ok(fl, et)
                if ok is None and contains(fl.fin['ALL'], lambda x: x[0] in ('copyinto', 'hav', 'call') and x[1] != 'range' or x[0] == 'filled'):
                    out[(cls, k)] = (None, 'the value of the all-list is not known: %s' % short(fl.fin['ALL']), at(f), fl)
                    continue
                if ok is None: ok, msg = False, 'the all-list left behind is not the parts put together: %s' % short(fl.fin['ALL'])
                out[(cls, k)] = (ok, msg, ev.where() if ev else at(f), fl)
        return out

    n = 0
    done = set()

    def check(f, depth=0):
        nonlocal n
        if f['usr'] in done: return
        done.add(f['usr'])
        for (cls, k), (ok, msg, where, fl) in verdicts(f).items():
            up = [F.funcs[u] for u in cg.get(f['usr'], ()) if u in F.funcs and u != f['usr']]
            if not ok and up and depth < 3 and not public(F, f):
                # a helper: the functions that use it answer for the whole
                for g in up: check(g, depth + 1)
                continue
            n += 1
            c.ob('%s leaves the %ss of %s consistent' % (f['qn'], k, cls), ok, where, msg, 'fill:%s:%s' % (f['qn'], k))
            classify(c, fl, f, et, cls)
            counters(c, fl, f)
    for f in work: check(f)
    c.need(n, least, 'functions filling id lists')


OPAQUE = {'Jali::Mesh::compute_cell_geometric_quantities', 'Jali::Mesh::compute_face_geometric_quantities'}


def check():
    c = Check('C03', RULE)
    c.bounds()
    F = c.load('mesh', 'simple')
    acc = {}
    for cls in ('Jali::Mesh', 'Jali::MeshTile'):
        a = accessors_ok(c, F, cls)
        counts(c, F, cls, a)
        dispatch(c, F, cls, a)
        for (k, t), v in a.items(): acc[(cls, k, t)] = v
    meshset(c, F)
    fills(c, F, acc, ('Jali::Mesh', 'Jali::MeshTile'), 12)
    return c.finish()
