"""Calls on a small abstract heap: the state one call leaves is the state the next one starts from."""
from .common import *
from jv import engine


def root(l):
    while l[0] in ('fld', 'elem', 'deref', 'base') and isinstance(l[1], tuple): l = l[1]
    return l


class Heap:
    """known locations; everything not known stays symbolic"""

    def __init__(self, F, hooks=None, unroll=16, opaque=None, depth=8, m=None, deref=False):
        self.F, self.hooks, self.unroll, self.opaque, self.depth, self.deref = F, hooks or {}, unroll, opaque, depth, deref
        self.m = dict(m or {})
        self.recurse = 0
        self.oracle = None
        self.nid = 0
        self.pc = TRUE

    def copy(self):
        h = Heap(self.F, self.hooks, self.unroll, self.opaque, self.depth, self.m, self.deref)
        h.nid, h.pc, h.recurse, h.oracle = self.nid, self.pc, self.recurse, self.oracle
        return h

    def call(self, f, this=THIS, params=None):
        I = Interp(self.F, opaque=self.opaque, max_depth=self.depth)
        I.unroll = self.unroll
        I.deref_events = self.deref
        I.assume.update(self.m)
        I.hooks.update(self.hooks)
        I.nid = self.nid
        I.bounds = engine.BOUNDS
        I.recurse, I.oracle = self.recurse, self.oracle
        I.run(f, this=this, params=params)
        self.nid = I.nid
        for l, v in I.final.m.items():
            if root(l)[0] not in ('var', 'tmp', 'out') and l[0] != 'pref': self.m[l] = v
        self.I = I
        self.pc = B_and(self.pc, I.final.pc)
        return I.result

    def see(self, f, this=THIS, params=None):
        """a query: what it gives, the heap left alone"""
        h = self.copy()
        r = h.call(f, this, params)
        self.pc = B_and(self.pc, h.I.final.pc)
        t = noref(f['ret'])
        if r is not None and r[0] == 'addr' and is_ref(f['ret']): r = h.I.read(h.I.final, r[1])
        return r[2] if r is not None and r[0] == 'typed' else r


def ints(t):
    """the numbers of a list that is known; False if it was written outside its bounds; None if not known"""
    e = elems(t) if t is not None else None
    if e is None:
        for x in walk(t) if t is not None else ():
            if x[0] == 'store' and is_num(x[2]) and is_num(size(x[1])) and not 0 <= x[2][1] < size(x[1])[1]: return False
        return None
    if not all(is_num(x) for x in e): return None
    return [x[1] for x in e]


def lst_of(xs): return ('list', tuple(C(x) if isinstance(x, int) else x for x in xs)) if xs else EMPTY


def argterm(I, e, i, st):
    """value of the i'th argument of a call node"""
    a = e['a'][i]
    return I.eval(a, st)


def objterm(I, e, st):
    """pointer to the object a member function is called on"""
    o = e.get('obj')
    if o is None: return I.frame.this
    if e.get('arrow') or o['k'] == 'this': return I.eval(o, st)
    return I.objptr(I.lval(o, st))
