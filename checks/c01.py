"""Mesh factory options: read back, reset, carried by the created mesh."""
from .common import *

MF = 'Jali::MeshFactory'
RULE = ('Every option setter and getter of the factory is evaluated symbolically: a setter writes exactly the option its getter reads, '
        'with the value given; kinds are included and excluded by concrete evaluation for every kind; reset leaves every option any '
        'setter can change at the value the constructor gives it; each creation function is followed into the constructors it calls and '
        'the option fields of the object it returns must equal the factory options on the path that returns a mesh.')
OPTIONS = ('framework', 'partitioner', 'mesh_geometry', 'num_ghost_layers_distmesh', 'boundary_ghosts_requested', 'num_tiles',
           'num_ghost_layers_tile', 'geometric_model')
WRITEONLY = ('contiguous_gids',)
OPAQUE = {'Jali::Mesh_simple::update_internals_1d_', 'Jali::Mesh_simple::update_internals_3d_', 'Jali::Mesh_simple::clear_internals_1d_',
          'Jali::Mesh_simple::clear_internals_3d_', 'Jali::Mesh::cache_extra_variables', 'Jali::Mesh::build_tiles'}
RKINDS = ('EDGE', 'FACE', 'SIDE', 'WEDGE', 'CORNER', 'CELL')


def changed(I):
    """fields of the object with their final values, those left alone dropped"""
    return {k: v for k, v in I.final.m.items() if k[0] == 'fld' and k[1] == THIS and v != ('load', k)}


def getters(c, F):
    g = {}
    for n in OPTIONS:
        for f in F.by_qn.get('%s::%s' % (MF, n), []):
            if f['params']: continue
            I = run(F, f)
            ok = I.result is not None and plain(I.result)[0] == 'load' and not changed(I)
            c.ob('option %s is read back' % n, ok, at(f), 'returns %s' % (short(I.result) if I.result else None), 'get:' + n)
            if ok: g[n] = plain(I.result)[1]
    c.need(len(g), 6, 'option getters')
    for n in g:
        o = [m for m in g if m < n and g[m] == g[n]]
        c.ob('option %s has storage of its own' % n, not o, '', 'shared with %s' % o, 'own:' + n)
    return g


def setters(c, F, g):
    opts = set(g.values())
    n = 0
    for o in OPTIONS + WRITEONLY:
        for f in F.by_qn.get('%s::%s' % (MF, o), []):
            if len(f['params']) != 1: continue
            n += 1
            nm = f['params'][0]['n'] or 'arg0'
            I = run(F, f)
            ch = changed(I)
            vals = {('sym', nm), ('typed', 'bool', ('sym', nm)), ('load', ('pref', nm))}
            if o in g:
                ok = set(ch) == {g[o]} and (ch[g[o]] in vals)
                if o == 'framework' and not ok:
                    ok = set(ch) == {g[o]} and any(v in vals for v in leaves(ch[g[o]]))
            else:
                ok = len(ch) == 1 and next(iter(ch)) not in opts and next(iter(ch.values())) in vals
                if ok: opts.add(next(iter(ch)))
            c.ob('setting %s changes that option alone, to the value given' % o, ok, at(f),
                 'changes %s' % {show(k): short(v) for k, v in ch.items()}, 'set:' + o)
    c.need(n, 7, 'option setters')
    return opts


def leaves(t):
    return leaves(t[2]) + leaves(t[3]) if t[0] == 'ite' else [t]


def kinds(c, F):
    """kind name -> request flag location"""
    ek = F.enum('Jali::Entity_kind')
    flag = {}
    gl = [f for f in F.by_qn.get(MF + '::included_entities', []) if not f['params']]
    c.need(len(gl), 1, 'query of the included kinds')
    fields = [('fld', THIS, MF + '::' + x['n']) for x in F.cls(MF)['fields'] if x['t'] == 'bool']
    inc1 = [f for f in F.by_qn.get(MF + '::included_entities', []) if len(f['params']) == 1 and 'vector' not in f['params'][0]['t']]
    incl = [f for f in F.by_qn.get(MF + '::included_entities', []) if len(f['params']) == 1 and 'vector' in f['params'][0]['t']]
    exc = [f for f in F.by_qn.get(MF + '::excluded_entities', []) if len(f['params']) == 1]
    c.need(len(inc1), 1, 'functions including a kind')
    for f in inc1:
        for k in RKINDS:
            ch = changed(run(F, f, params={0: C(ek[k])}))
            ok = len(ch) == 1 and list(ch.values()) == [TRUE] and not any(v in ch for x, v in flag.items() if x != k)
            c.ob('including %s turns one request on' % k, ok, at(f), 'changes %s' % {show(a): short(b) for a, b in ch.items()}, 'include:' + k)
            if ok: flag[k] = next(iter(ch))
        ch = changed(run(F, f, params={0: C(ek['NODE'])}))
        c.ob('including NODE changes nothing', not ch, at(f), 'changes %s' % [show(a) for a in ch], 'include:NODE')
        ch = changed(run(F, f, params={0: C(ek['ALL_KIND'])}))
        c.ob('including all kinds turns every request on', set(ch) == set(flag.values()) and all(v == TRUE for v in ch.values()), at(f),
             'changes %s' % {show(a): short(b) for a, b in ch.items()}, 'include:ALL_KIND')
    allk = ['NODE'] + list(RKINDS)
    pairs = [(a, b) for a in allk for b in allk if a != b]
    for f in incl:
        for ks in [()] + [(k,) for k in allk + ['ALL_KIND']] + pairs:
            I = run(F, f, params={0: ('list', tuple(C(ek[k]) for k in ks))}, unroll=12)
            ch = changed(I)
            want = set(flag.values()) if 'ALL_KIND' in ks else {flag[k] for k in ks if k in flag}
            c.ob('including the list %s' % '+'.join(ks), decided(ch, set(ch) == want and all(v == TRUE for v in ch.values())), at(f),
                 'changes %s' % {show(a): short(b) for a, b in ch.items()}, 'includelist:' + '+'.join(ks))
    for f in exc:
        for ks in [()] + [(k,) for k in allk] + pairs:
            p = ('list', tuple(C(ek[k]) for k in ks)) if 'vector' in f['params'][0]['t'] else (C(ek[ks[0]]) if len(ks) == 1 else None)
            if p is None: continue
            ch = changed(run(F, f, params={0: p}, unroll=12))
            want = {flag[k] for k in ks if k in flag and k not in ('FACE', 'CELL')}
            c.ob('excluding %s' % '+'.join(ks), decided(ch, set(ch) == want and all(v == FALSE for v in ch.values())), at(f),
                 'changes %s' % {show(a): short(b) for a, b in ch.items()}, 'exclude:' + '+'.join(ks))
    # the query: one kind on at a time, all on, none on
    for f in gl:
        for on in [()] + [(k,) for k in RKINDS] + [RKINDS] + [tuple(x for x in RKINDS if x != k) for k in RKINDS]:
            asm = {flag[k]: (TRUE if k in on else FALSE) for k in flag}
            r = run(F, f, assume=asm).result
            want = sorted([ek['NODE']] + [ek[k] for k in on])
            ok = sorted(x[1] for x in r[1]) == want if r is not None and r[0] == 'list' and all(is_num(x) for x in r[1]) else None
            c.ob('kinds listed when %s requested' % ('+'.join(on) or 'none'), ok, at(f), 'lists %s' % (short(r) if r else None), 'listed:' + '+'.join(on))
    return flag


def decided(ch, ok):
    if any(contains(v, lambda t: t[0] in ('after', 'hav')) for v in ch.values()): return None
    return ok


def reset(c, F, opts):
    ctor = [f for f in F.by_qn.get(MF + '::MeshFactory', []) if f['kind'] == 'ctor']
    c.need(len(ctor), 1, 'factory constructors')
    rf = F.fn(MF + '::reset_options')
    I = run(F, rf)
    for k in ctor:
        init = {l: v for l, v in run(F, k).final.m.items() if l[0] == 'fld' and l[1] == THIS}
        m = {('load', l): v for l, v in init.items() if is_num(v)}
        for l in sorted(opts):
            v = I.final.m.get(l, ('load', l))
            if v == ('load', l):
                ok, got = False, 'is left as it was'
            else:
                w = plain(subst(v, {x: y for x, y in m.items() if x[1] not in opts}))
                ok, got = same(w, init.get(l, ('uninit',))), 'becomes %s, initially %s' % (short(w), short(init.get(l, C('unset'))))
            c.ob('reset restores %s' % l[2].split('::')[-1], ok, at(rf), l[2].split('::')[-1] + ' ' + got, 'reset:' + l[2].split('::')[-1])


# option getter -> name of the mesh's own field
CARRY = (('partitioner', 'partitioner_pref_'), ('num_tiles', 'num_tiles_ini_'), ('num_ghost_layers_tile', 'num_ghost_layers_tile_'),
         ('num_ghost_layers_distmesh', 'num_ghost_layers_distmesh_'), ('boundary_ghosts_requested', 'boundary_ghosts_requested_'))
REQ = {'EDGE': 'edges_requested', 'FACE': 'faces_requested', 'SIDE': 'sides_requested', 'WEDGE': 'wedges_requested', 'CORNER': 'corners_requested'}


def created(c, F, g, flag):
    gm = run(F, next(f for f in F.by_qn['Jali::Mesh::geometric_model'] if not f['params'])).result
    gt = run(F, next(f for f in F.by_qn['Jali::Mesh::geom_type'] if not f['params'])).result
    n = 0
    for f in F.by_qn.get(MF + '::create', []):
        I = run(F, f, opaque=OPAQUE, depth=4)
        if I.result is None: continue
        alts = cases(I.result)
        for guard, v in alts:
            o = next((x for x in walk(v) if x[0] == 'new'), None)
            if o is None: continue
            n += 1
            d = len([p for p in f['params'] if p['n'].startswith('n')]) or 1
            dim = 1 if 'vector' in f['params'][0]['t'] else d
            tag = '%dD' % dim
            val = lambda q: simp(I.final.m.get(q, ('load', q)), guard)
            fl = lambda name: ('fld', o, 'Jali::Mesh::' + name)
            for opt, name in CARRY:
                if opt not in g or fl(name) not in I.final.m: ok, got = None, None
                else:
                    got = val(fl(name))
                    ok = plain(got) == ('load', g[opt]) or same(got, ('load', g[opt])) or same(got, ('typed', 'bool', ('load', g[opt])))
                c.ob('%s mesh carries %s' % (tag, opt), ok, at(f), 'the mesh gets %s' % (short(got) if got else None), 'carry:%s:%s' % (tag, opt))
            for what, q, opt in (('geometric model', gm, 'geometric_model'), ('geometry type', gt, 'mesh_geometry')):
                if what == 'geometry type' and dim == 3: continue
                l = move(q[1], o) if q is not None and q[0] == 'load' else None
                if l is None or l not in I.final.m: ok, got = None, None
                else:
                    got = val(l)
                    want = ('load', g[opt])
                    ok = same(got, want) or (what == 'geometric model' and same(simp(got, B_not(eq(want, C(0)))), want) and same(simp(got, eq(want, C(0))), C(0)))
                c.ob('%s mesh carries the %s' % (tag, what), ok, at(f), 'the mesh gets %s' % (short(got) if got else None), 'carry:%s:%s' % (tag, opt))
            for k, name in REQ.items():
                if fl(name) not in I.final.m or k not in flag:
                    c.ob('%s mesh carries the request for %s' % (tag, k), None); continue
                got = truth(val(fl(name)))
                mine = bit(flag[k])
                none = TRUE
                for x in flag.values(): none = B_and(none, B_not(bit(x)))
                # a kind is present when asked for, absent when nothing is asked for
                c.ob('%s mesh has %s when requested' % (tag, k), implies(B_and(guard, mine), got), at(f), 'flag is %s' % short(got), 'request:%s:%s' % (tag, k))
                c.ob('%s mesh has no %s when nothing is requested' % (tag, k), sat(B_and(guard, B_and(none, got))) is None, at(f), 'flag is %s' % short(got), 'norequest:%s:%s' % (tag, k))
            # the extents
            for p in f['params']:
                if p['n'] not in ('x0', 'y0', 'z0', 'x1', 'y1', 'z1', 'nx', 'ny', 'nz'): continue
                q = ('fld', o, 'Jali::Mesh_simple::%s_' % p['n'])
                if q not in I.final.m: c.ob('%s extents' % tag, None); continue
                got = val(q)
                c.ob('%s mesh is built with %s as given' % (tag, p['n']), plain(got) == ('sym', p['n']) or got == ('load', ('pref', p['n'])), at(f),
                     'gets %s' % short(got), 'extent:%s:%s' % (tag, p['n']))
    c.need(n, 2, 'creation paths')
    c.count('creation_paths', n)


def bit(l): return truth(('typed', 'bool', ('load', l)))


def plain(t):
    while t[0] == 'typed': t = t[2]
    return t


def move(loc, o):
    """the same place in another object"""
    if loc == THIS: return o
    if loc[0] in ('fld', 'elem') and isinstance(loc[1], tuple): return (loc[0], move(loc[1], o)) + tuple(loc[2:])
    return loc


def cases(t, g=TRUE):
    if t[0] == 'ite': return cases(t[2], B_and(g, t[1])) + cases(t[3], B_and(g, B_not(t[1])))
    return [(g, t)]


def forwards(c, F):
    """the public call operators hand their arguments over in order"""
    n = 0
    for f in F.by_qn.get(MF + '::operator()', []):
        I = Interp(F, inline=lambda g: not g['qn'].endswith('::create'), max_depth=3)
        I.run(f)
        ev = [e for e in I.events if e.kind == 'call' and e.d['name'] == MF + '::create']
        if len(ev) != 1: c.ob('call operator at %d' % f['line'], None); continue
        n += 1
        args = [plain(a) for a in ev[0].d['args']]
        if len(args) != len(f['params']):
            # a uniform 1D mesh: the node positions are generated here
            cnt = [p for p in f['params'] if p['t'] in ('int', 'const int')]
            if len(args) == 1 and len(cnt) == 1 and 'vector' not in f['params'][0]['t']:
                nn = size(args[0]) if args[0][0] != 'addr' else size(read_of(I, ev[0], args[0]))
                want = add(('sym', cnt[0]['n']), C(1))
                ok = True if same(nn, want) else None if contains(nn, lambda t: t[0] in ('size', 'after', 'hav')) else False
                c.ob('a uniform 1D mesh of n cells has n+1 nodes', ok, at(f), 'has %s nodes' % short(nn), 'uniform1d')
            continue
        for p, a in zip(f['params'], args):
            ok = a in (('sym', p['n']), ('load', ('pref', p['n'])), ('addr', ('pref', p['n'])))
            c.ob('creating from %s passes %s on' % (', '.join(q['n'] for q in f['params']), p['n']), ok, at(f), 'passes %s' % short(a), 'pass:%d:%s' % (len(args), p['n']))
    c.need(n, 3, 'call operators')


def read_of(I, e, a): return e.d.get('seqs', {}).get(a, ('load', a[1]))


def check():
    c = Check('C01', RULE)
    c.bounds()
    F = c.load('mesh', 'simple', 'factory', 'geometry', 'error')
    g = getters(c, F)
    opts = setters(c, F, g)
    flag = kinds(c, F)
    reset(c, F, opts | set(flag.values()))
    created(c, F, g, flag)
    forwards(c, F)
    return c.finish()
