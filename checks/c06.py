"""C06: nothing depends on values that were never set."""
from .objs import *

RULE = ('every constructor in the compiled sources is evaluated on an object none of whose scalar members is set: afterwards every member that something other than constructors and their helpers reads has a value; '
        'every function is evaluated with free arguments: no local variable that was not set goes into a computation, decision, subscript or answer.')
SRC = ('mesh', 'simple', 'factory', 'geometry', 'error', 'state')


def readers(F):
    """usr of the functions that run after construction: all but constructors and what only they call"""
    calls = {u: {n.get('usr') for n in nodes([f.get('body'), f.get('inits')]) if n.get('k') in ('call', 'ctor', 'fn')} for u, f in F.funcs.items()}
    priv = {m['usr'] for c in F.classes.values() for m in c.get('methods', []) if m.get('acc') == 'private'}
    todo = [u for u, f in F.funcs.items() if f['kind'] not in ('ctor', 'copyctor', 'movector') and u not in priv]
    seen = set(todo)
    while todo:
        for v in calls.get(todo.pop(), ()):
            g = F.funcs.get(v)
            if v in seen or g is None or g['kind'] in ('ctor', 'copyctor', 'movector'): continue
            seen.add(v); todo.append(v)
    return seen


def read_fields(F):
    out = {}
    for u in readers(F):
        f = F.funcs[u]
        written = {id(n['L']) for n in nodes(f.get('body')) if n.get('k') == 'asg' and n.get('op') == '=' and isinstance(n.get('L'), dict)}
        for n in nodes(f.get('body')):
            if n.get('k') == 'mem' and id(n) not in written: out.setdefault(n.get('c', '') + '::' + n.get('f', ''), f['qn'])
    return out


def check():
    ck = Check('C06', RULE)
    ck.bounds()
    F = ck.load(*SRC)
    rd = read_fields(F)
    ck.need(len(rd), 60, 'members read')
    cs = [f for f in F.funcs.values() if f['kind'] in ('ctor', 'copyctor', 'movector') and f.get('body') is not None]
    ck.need(len(cs), 25, 'constructors')
    ck.each(cs, lambda sub, f: ctor(sub, F, f, rd), lambda f: 'constructor ' + f['qn'])
    fs = [f for f in F.funcs.values() if f.get('body') is not None and '/src/' in f['file']]
    ck.need(len(fs), 300, 'functions')
    step = 20
    ck.each([fs[i:i + step] for i in range(0, len(fs), step)], lambda sub, j: [locals_(sub, F, f) for f in j], lambda j: 'functions from ' + j[0]['qn'])
    return ck.finish()


def fields(F, cls):
    out = []
    for b in [cls] + list(F.bases(cls)):
        k = F.classes.get(b) or F.class_by_qn.get(b)
        out += [(k.get('qn', b), x) for x in (k or {}).get('fields', []) if x.get('scalar')]
    return out


def ctor(ck, F, f, rd):
    cls = f.get('clst', f['qn'].rsplit('::', 1)[0])
    fs = [(c, x) for c, x in fields(F, cls) if c + '::' + x['n'] in rd and '[' not in x['t']]
    if not fs: return
    h = Heap(F, depth=3, unroll=4)
    for c, x in fs: h.m[mk(('fld', THIS, c + '::' + x['n']))] = ('uninit',)
    where = '%s:%d' % (f['file'], f['line'])
    h.call(f)
    if h.I.final.pc == FALSE: return      # always throws
    for c, x in fs:
        v = h.m.get(mk(('fld', THIS, c + '::' + x['n'])), C(0))
        ok = not some(v)
        ck.ob('%s(%s) sets %s' % (f['qn'], ', '.join(p['n'] or '-' for p in f['params']), x['n']), ok, where, 'it is read by %s' % rd[c + '::' + x['n']], key='%s sets %s' % (f['qn'], x['n']))


def some(v):
    """is v, on some path, a value that was never set?"""
    if v[0] == 'ite': return some(v[2]) or some(v[3])
    if v[0] == 'typed': return some(v[2])
    return v[0] == 'uninit'


def locals_(ck, F, f):
    hits = []
    I0 = engine.Interp.use

    def use(self, st, v, what):
        if v[0] == 'uninit' and st.pc != FALSE: hits.append((self.frame.fn['file'], self.line, self.frame.fn['qn'], what))
    engine.Interp.use = use
    try:
        h = Heap(F, depth=1)
        h.call(f)
    finally: engine.Interp.use = I0
    ck.ob('%s uses no local variable that was not set' % f['qn'], not hits, '%s:%d' % hits[0][:2] if hits else '', '%s %s a value that was never set' % hits[0][2:] if hits else '')
