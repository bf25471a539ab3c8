"""What asking the factory for a mesh can lead to."""
from .common import *
from .c01 import MF, OPAQUE, cases

RULE = ('The conditions under which each creation function returns a mesh, returns nothing, or reports an error are computed symbolically. '
        'Returning nothing must be impossible given that a sum over ranks of error flags is positive when this rank\'s flag is; every invalid request '
        'must be unable to return; a valid one must be unable to fail other than by an exception from below; in parallel no rank may fail on a '
        'condition the ranks have not agreed on. The capability queries are compared with the paths that exist.')


MPITYPE = {'int': '_int', 'double': '_double', 'unsigned int': '_unsigned', 'bool': '_bool', 'long': '_long', 'char': '_char'}
COLLECTIVE = ('MPI_Allreduce', 'MPI_Barrier', 'MPI_Bcast', 'MPI_Allgather', 'MPI_Reduce', 'MPI_Gather', 'MPI_Scatter', 'MPI_Scan')


def comm_sizes(conds):
    out = set()
    for g in conds:
        for a in b_atoms(g):
            for t in walk(a):
                if t[0] == 'out' and t[1][0] == 'call' and t[1][1] == 'MPI_Comm_size': out.add(t)
    return out


def axioms(conds):
    """facts about reductions: a sum (or max, or) of non-negative flags is positive if this rank's is; with one rank it is this rank's"""
    ax, todo, seen = TRUE, list(conds), set()
    ns = comm_sizes(conds)
    while todo:
        g = todo.pop()
        for a in b_atoms(g):
            for t in walk(a):
                if t[0] == 'allreduce' and t not in seen:
                    seen.add(t)
                    op = show(t[2])
                    if not any(x in op for x in ('_sum', '_max', '_lor', '_bor')): continue
                    mine, all_ = pos(t[1]), lt(C(0), t)
                    ax = B_and(ax, B_or(B_not(mine), all_))
                    for n in ns: ax = B_and(ax, B_or(B_not(eq(n, C(1))), B_or(mine, B_not(all_))))
                    todo.append(mine)
    for n in ns: ax = B_and(ax, B_and(lt(C(0), n), B_or(eq(n, C(1)), lt(C(1), n))))
    return ax


def pos(t):
    """t > 0, for a flag counted up from zero"""
    if t[0] == 'B': return t
    if t[0] == 'c': return TRUE if t[1] > 0 else FALSE
    if t[0] == 'ite': return B_ite(t[1], pos(t[2]), pos(t[3]))
    if t[0] == 'num': return pos(t[1])
    if t[0] == 'lin':
        k, d = lin_parts(t)
        if k >= 0 and all(v > 0 for v in d.values()):
            if k > 0: return TRUE
            r = FALSE
            for x in d: r = B_or(r, pos(x))
            return r
    return lt(C(0), t)


def requests(F, f):
    """(description, condition under which the request is invalid)"""
    out = []
    ps = {p['n']: p['t'] for p in f['params']}
    S = lambda n: ('sym', n)
    names = list(ps)
    ints = [n for n in names if ps[n].replace('const ', '') == 'int']
    dbl = [n for n in names if ps[n].replace('const ', '') == 'double']
    dim = None
    if ints and len(dbl) == 2 * len(ints):
        dim = len(ints)
        for n in ints: out.append(('%s not positive' % n, lt(S(n), C(1))))
        for i in range(dim): out.append(('no extent from %s to %s' % (dbl[i], dbl[i + dim]), B_not(lt(S(dbl[i]), S(dbl[i + dim])))))
    elif len(names) == 1 and 'vector<double' in ps[names[0]]:
        dim = 1
        x = S(names[0])
        out.append(('fewer than two nodes', lt(size(x), C(2))))
        out.append(('a last node not beyond the first', B_and(B_not(lt(size(x), C(2))), B_not(lt(index(x, C(0)), index(x, add(size(x), C(-1))))))))
    return dim, out


def check():
    c = Check('C10', RULE)
    c.bounds()
    F = c.load('mesh', 'simple', 'factory', 'geometry', 'error')
    fw = F.enum('Jali::MeshFramework_t')
    getfw = run(F, next(f for f in F.by_qn[MF + '::framework'] if not f['params'])).result
    getgm = run(F, next(f for f in F.by_qn[MF + '::geometric_model'] if not f['params'])).result
    n, gen, other = 0, {}, {}
    comms = [x for x in F.cls(MF)['fields'] if 'MPI_Comm' in x['t'] or 'communicator' in x['t']]
    comm_of = mk(('load', ('fld', ('sym', 'this'), MF + '::' + comms[0]['n']))) if len(comms) == 1 else None
    for f in F.by_qn.get(MF + '::create', []):
        I = run(F, f, opaque=OPAQUE, depth=4)
        dim, bad = requests(F, f)
        n += 1
        tag = '%dD' % dim if dim else ('file' if len(f['params']) == 1 else 'extraction')
        throws = [e for e in I.events if e.kind == 'throw']
        conds = [pc for pc, v in I.result_parts] + [e.pc for e in throws]
        ax = axioms(conds)
        # nothing is returned only if impossible
        null = FALSE
        mesh = FALSE
        for pc, v in I.result_parts:
            for g, x in cases(v):
                if x == C(0): null = B_or(null, B_and(pc, g))
                elif contains(x, lambda t: t[0] == 'new'): mesh = B_or(mesh, B_and(pc, g))
                else: null = B_or(null, B_and(pc, B_and(g, eq(x, C(0)))))
        w = sat(B_and(null, ax))
        c.ob('%s creation never returns nothing' % tag, w is None, at(f), 'it does when %s' % describe(null, ax), 'null:' + tag)
        # unknown frameworks: an enumerator without a path must be an error
        gmdim = next((t for g in conds for a in b_atoms(g) for t in walk(a) if t[0] == 'load' and t[1][0] == 'fld' and t[1][2].endswith('::topo_dimension_')), None)
        if dim:
            gm = ('load', getgm[1])
            if gmdim is None:
                c.ob('%s creation refuses a geometric model of another dimension' % tag, False, at(f), 'its dimension is not looked at', 'refuse:%s:model' % tag)
            else:
                bad.append(('a geometric model of another dimension', B_and(B_not(eq(gm, C(0))), B_not(eq(gmdim, C(dim))))))
            for what, cond in bad:
                w = sat(B_and(mesh, B_and(ax, cond)))
                c.ob('%s creation refuses %s' % (tag, what), w is None, at(f), 'a mesh is returned', 'refuse:%s:%s' % (tag, what))
            ns = comm_sizes(conds)
            one = TRUE
            for x in ns: one = B_and(one, eq(x, C(1)))
            valid = B_and(one, eq(getfw, C(fw['Simple'])))
            if gmdim is not None: valid = B_and(valid, B_not(bad[-1][1]))
            for what, cond in bad[:-1] if gmdim is not None else bad: valid = B_and(valid, B_not(cond))
            noexc = TRUE
            for g in conds:
                for a in b_atoms(g):
                    if a[0] == 'exc': noexc = B_and(noexc, B_not(atom(a)))
            can = sat(B_and(mesh, B_and(ax, valid))) is not None
            gen[(fw['Simple'], dim)] = (can, f)
            many = TRUE
            for x in ns:
                if comm_of is None or contains(x, lambda t: t == comm_of): many = B_and(many, lt(C(1), x))
            w = sat(B_and(B_and(mesh, eq(getfw, C(fw['Simple']))), B_and(ax, many)))
            c.ob('%s creation by a serial framework is refused on several ranks' % tag, w is None, at(f), 'a mesh is returned whatever the size of the communicator', 'serial:' + tag)
            if can:
                for e in throws:
                    w = B_and(B_and(e.pc, ax), B_and(valid, noexc))
                    c.ob('%s creation does not refuse a valid request' % tag, sat(w) is None, e.where(), 'it can fail when %s' % describe(e.pc, B_and(ax, valid)), 'accept:' + tag)
        else: other[tag] = (sat(B_and(mesh, ax)) is not None, f, mesh, ax)
        # agreement
        for e in throws:
            ns = comm_sizes([e.pc])
            loc = [a for a in b_atoms(e.pc) if a[0] == 'exc']
            for a in loc:
                p1, p0 = B_constrain(e.pc, atom(a)), B_constrain(e.pc, B_not(atom(a)))
                d = B_or(B_and(p1, B_not(p0)), B_and(p0, B_not(p1)))
                many = TRUE
                for x in ns: many = B_and(many, B_not(eq(x, C(1))))
                w = sat(B_and(d, B_and(ax, many)))
                c.ob('%s creation fails on all ranks or none' % tag, w is None, e.where(), 'failing depends on %s of this rank alone' % show(a), 'agree:%s' % tag)
            if not loc: c.ob('%s creation fails on all ranks or none' % tag, True)
        # the reductions themselves
        for e in I.events:
            if e.kind != 'call' or not e.name.startswith('MPI_'): continue
            r = getattr(e, 'reduce', None)
            if e.name == 'MPI_Allreduce' and r is not None:
                own = comm_of is None or r[4] == comm_of
                c.ob('%s creation agrees with every rank of its communicator' % tag, own, e.where(), 'it reduces over %s' % show(r[4]), 'comm:%s' % tag)
                ty = [MPITYPE.get(noref(t).replace('const ', '').rstrip('* ')) for t in r[:2]]
                good = r[2] == C(1) and (ty[0] is None or (ty[0] == ty[1] and show(r[3]).rstrip(')').endswith(ty[0])))
                c.ob('%s creation reduces the one flag it has' % tag, good if is_num(r[2]) else None, e.where(), 'it reduces %s of %s at a %s into a %s' % (show(r[2]), show(r[3]), r[0], r[1]), 'reduce:%s' % tag)
            elif e.name not in COLLECTIVE: continue
            many = TRUE
            for x in comm_sizes(conds): many = B_and(many, B_not(eq(x, C(1))))
            for a in [a for a in b_atoms(e.pc) if a[0] == 'exc']:
                p1, p0 = B_constrain(e.pc, atom(a)), B_constrain(e.pc, B_not(atom(a)))
                w = sat(B_and(B_or(B_and(p1, B_not(p0)), B_and(p0, B_not(p1))), B_and(ax, many)))
                c.ob('%s creation: every rank takes part in %s' % (tag, e.name), w is None, e.where(), 'taking part depends on %s of this rank alone' % show(a), 'part:%s' % tag)
    c.need(n, 3, 'creation functions')
    # capability queries
    fa, fg, fr, fx = (F.fn('Jali::framework_' + x) for x in ('available', 'generates', 'reads', 'extracts'))
    for name, v in sorted(fw.items()):
        av = run(F, fa, params={0: C(v)}).result
        usable = name == 'Simple' and any(x for (w, d), (x, _) in gen.items() if w == v) or \
            any(sat(B_and(B_and(m, a), eq(getfw, C(v)))) is not None for x, f, m, a in other.values())
        c.ob('%s is called available exactly if it can make a mesh' % name, (av == TRUE) == usable if av in (TRUE, FALSE) else None, at(fa),
             'available: %s, a mesh can be made: %s' % (show(av), usable), 'available:' + name)
        if name != 'Simple': continue
        for d in (1, 2, 3):
            g = run(F, fg, params={0: C(v), 1: FALSE, 2: C(d)}).result
            if (v, d) in gen:
                c.ob('%s is said to generate %dD meshes exactly if it does' % (name, d), (g == TRUE) == gen[(v, d)][0] if g in (TRUE, FALSE) else None, at(fg),
                     'said: %s, does: %s' % (show(g), gen[(v, d)][0]), 'generates:%s:%d' % (name, d))
            g = run(F, fg, params={0: C(v), 1: TRUE, 2: C(d)}).result
            c.ob('%s is not said to generate parallel %dD meshes' % (name, d), g == FALSE if g in (TRUE, FALSE) else None, at(fg), 'said: %s' % show(g), 'parallel:%s:%d' % (name, d))
        for tag, q, p in (('file', fr, {1: FALSE, 2: C(1)}), ('extraction', fx, {1: FALSE, 2: C(3)})):
            if tag not in other: continue
            g = run(F, q, params={0: C(v), **p}).result
            x, f, m, a = other[tag]
            can = sat(B_and(B_and(m, a), eq(getfw, C(v)))) is not None
            c.ob('%s is said to support %s exactly if it does' % (name, tag), (g == TRUE) == can if g in (TRUE, FALSE) else None, at(q), 'said: %s' % show(g), 'cap:%s:%s' % (name, tag))
    c.count('creation_functions', n)
    return c.finish()


def describe(g, ax):
    lits = [(a, p) for a, p in b_literals(B_and(g, ax)) if a[0] != 'lt' or 'allreduce' not in show(a)]
    return ' and '.join(('' if p else 'not ') + show(a) for a, p in lits[:4]) or 'some condition'
