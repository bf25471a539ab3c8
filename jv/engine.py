"""Structured value-numbering analysis over the resolved syntax tree.

Every function is summarised as guarded events (field writes, container
updates, calls, throws, returns, allocations, dereferences) whose guards and
values are terms over the function's inputs.  Branches join into conditional
terms, loops are summarised with a symbolic iteration variable, and calls to
repository functions are inlined up to a bound.  No code of /repo is executed.
"""
import re
from .facts import Broken
from .terms import *


class Ev:
    __slots__ = ('kind', 'pc', 'loops', 'line', 'fn', 'file', 'd', 'seq', 'stack')

    def __init__(self, kind, pc, loops, line, fn, file, d, seq, stack):
        self.kind, self.pc, self.loops, self.line, self.fn, self.file, self.d, self.seq, self.stack = \
            kind, pc, loops, line, fn, file, d, seq, stack

    def __getattr__(self, k):
        try: return self.d[k]
        except KeyError: raise AttributeError(k)

    def where(self): return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '%s@%s [%s]%s %s' % (self.kind, self.line, show(self.pc), ''.join('{i%s:%s}' % (l[0], show(l[1][1]) if l[1][0] == 'range' else l[1][0]) for l in self.loops),
                                    {k: show(v) if isinstance(v, tuple) else v for k, v in self.d.items()})


class St:
    __slots__ = ('m', 'pc')

    def __init__(self, m=None, pc=TRUE):
        self.m = m if m is not None else {}
        self.pc = pc

    def copy(self, pc=None):
        return St(dict(self.m), self.pc if pc is None else pc)

    @property
    def dead(self): return self.pc == FALSE


BOUNDS = None        # what checks that look at every access to a list note them in (see Interp.bound)


class Frame:
    def __init__(self, fn, fid, this):
        self.fn, self.fid, self.this = fn, fid, this
        self.rets = []
        self.scope0 = 0
        self.locs = set()


CONTAINERS = re.compile(r'^(const )?std::(vector|array|deque|list|set|map|unordered_map|multiset|multimap|basic_string|initializer_list|__cxx11::basic_string|__cxx11::list|unordered_set)<')
SMART = re.compile(r'^(const )?std::(shared_ptr|unique_ptr|__shared_ptr|__shared_ptr_access|weak_ptr)\b')
SCALAR = re.compile(r'^(const )?(unsigned |signed |long |short )*(int|bool|double|float|char|long|short|unsigned|size_t)( const)?$')


def noref(t):
    t = t.strip()
    while t.endswith('&'): t = t[:-1].strip()
    return t


def is_ref(t): return t.strip().endswith('&')


def is_mut_ref(t):
    t = t.strip()
    return t.endswith('&') and not t.endswith('&&') and not t.startswith('const ')


def is_mut_ptr(t):
    t = t.strip()
    if t.endswith('const'): t = t[:-5].strip()
    return t.endswith('*') and not t.startswith('const ')


def isint(t):
    t = noref(t).replace('const ', '').strip()
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'size_t', 'bool', 'unsigned short', 'long long', 'unsigned long long', 'unsigned char', 'signed char')


def exact(v):
    """class of an object whose creation was seen"""
    while v[0] == 'cast': v = v[2]
    return v[2] if v[0] == 'new' and isinstance(v[2], str) else None


class Interp:
    def __init__(self, facts, inline=None, opaque=None, max_depth=8, max_iter_terms=None):
        self.F = facts
        self.inline_pred = inline
        self.opaque = set(opaque or ())
        self.unroll = 0
        self.max_depth = max_depth
        self.bounds = None      # a list: number of accesses within bounds, and those that are not
        self.line = 0
        self.events = []
        self.mute = 0
        self.fid = 0
        self.lid = 0
        self.nid = 0
        self.arrays = {}
        self.frames = []
        self.scopes = []      # outer conditions (relative conditions multiply up)
        self.loops = []
        self.wlog = None
        self.ninlined = set()
        self.nopaque = set()
        self.budget = 400000
        self.steps = 0
        self.pure_mut = True
        self.recurse = 0      # how often a function may be entered again before it returns
        self.oracle = None    # condition -> True, False or None: branches that are decided from outside
        self.hooks = {}       # qualified name -> f(interp, st, e, obj, args) returning a term or None
        self.assume = {}      # loc -> value of initial loads
        self.deref_events = False
        self.const_call_pure = True
        self.typed_bool = True
        self._refs = set()

    # ---- bookkeeping ------------------------------------------------------------
    @property
    def frame(self): return self.frames[-1]

    def guard(self, st):
        return B_and(*(self.scopes + [st.pc]))

    def emit(self, kind, st, node, **d):
        if self.mute: return
        if st.dead: return
        fn = self.frame.fn
        line = node.get('l', 0) if isinstance(node, dict) else (node or 0)
        self.events.append(Ev(kind, self.guard(st), tuple(self.loops), line, fn['qn'], fn['file'], d, len(self.events),
                              tuple(f.fn['qn'] for f in self.frames)))

    def unk(self, why=''):
        self.nid += 1
        return ('unk', why, self.nid)

    # ---- memory -----------------------------------------------------------------
    def initial(self, loc, t=None):
        if loc in self.assume: return self.assume[loc]
        k = loc[0]
        if k == 'elem': return index(self.initial(loc[1]), loc[2])
        if k == 'var' and loc[1] == 0: return ('sym', loc[2]) if len(loc) < 4 else ('sym', loc[3])
        v = ('load', loc)
        if t and self.typed_bool and noref(t).replace('const ', '') == 'bool': v = ('typed', 'bool', v)
        return v

    def read(self, st, loc, t=None):
        r = self.read0(st, mk(loc), t)
        return r if type(r) is T else mk(r)

    def read0(self, st, loc, t=None):
        k = loc[0]
        if loc in st.m:
            v = st.m[loc]
            if k != 'elem': v = self.with_fields(st, loc, v)
            return v
        if k == 'elem':
            b = self.read(st, loc[1])
            if self.bounds is not None: self.bound(st, b, loc[2], 'reads')
            return index(b, loc[2])
        if k == 'key':
            return index(self.read(st, loc[1]), loc[2])
        if k == 'fld':
            b = loc[1]
            if loc in self.assume: return self.assume[loc]
            if b[0] == 'addr':
                base = b[1]
                if base in st.m or base[0] in ('elem', 'key'):
                    whole = self.read_raw(st, base)
                    if whole is not None: return self.fieldof(whole, loc[2], t)
                whole = self.initial(base)
                if whole[0] != 'load': return self.fieldof(whole, loc[2], t)
        if k == 'deref' and loc[1][0] == 'addr': return self.read(st, loc[1][1], t)
        if k == 'deref' and loc[1][0] == 'ite':
            return ite(loc[1][1], self.read(st, self.ptr_loc(loc[1][2]), t), self.read(st, self.ptr_loc(loc[1][3]), t))
        if k == 'fld' and loc[1][0] == 'ite':
            return ite(loc[1][1], self.read(st, self.fld(loc[1][2], loc[2], st), t), self.read(st, self.fld(loc[1][3], loc[2], st), t))
        if k == 'tmpv': return loc[1]
        if k == 'static':
            g = self.const_global(loc[1]) if len(loc) == 2 else None
            return g if g is not None else self.initial(loc, t)
        v = self.initial(loc, t)
        return self.with_fields(st, loc, v)

    def read_raw(self, st, loc):
        if loc in st.m: return st.m[loc]
        if loc[0] == 'elem' or loc[0] == 'key': return index(self.read(st, loc[1]), loc[2])
        return None

    def with_fields(self, st, loc, v):
        """merge separately stored fields of a value into the value"""
        a = ('addr', loc)
        keys = getattr(st, 'm').get(('fields', loc))
        if not keys: return v
        fs = tuple((f, self.read(st, ('fld', a, f))) for f in keys)
        return ('obj', v, fs)

    def fieldof(self, whole, f, t=None):
        if whole[0] == 'ite': return ite(whole[1], self.fieldof(whole[2], f, t), self.fieldof(whole[3], f, t))
        if whole[0] == 'obj':
            for n, v in whole[2]:
                if n == f: return v
            return self.fieldof(whole[1], f, t)
        if whole[0] == 'call' and whole[1] == 'make_pair' or whole[0] == 'pair':
            a = whole[2] if whole[0] == 'call' else whole[1:]
            if f.endswith('::first'): return a[0]
            if f.endswith('::second'): return a[1]
        if whole[0] == 'dflt':
            v = self.dflt_fields(whole[1]).get(f)
            if v is not None: return v
        v = ('fldof', whole, f)
        if t and self.typed_bool and noref(t).replace('const ', '') == 'bool': v = ('typed', 'bool', v)
        return v

    def dflt_fields(self, cls):
        """fields an object has when its default constructor made it"""
        cache = self.F.__dict__.setdefault('_dflt', {})
        cls = cls.replace('const ', '').strip()
        if cls not in cache:
            cache[cls] = {}
            fs = [g for g in self.F.funcs.values() if g['kind'] == 'ctor' and g.get('clst', g['qn'].rsplit('::', 1)[0]) == cls and g.get('body') is not None and all('dflt' in p for p in g['params'])]
            if len(fs) == 1 and not fs[0]['params']:
                I = Interp(self.F, max_depth=4)
                this = mk(('new', 1, cls))
                I.run(fs[0], this=this)
                cache[cls] = {l[2]: v for l, v in I.final.m.items() if l[0] == 'fld' and l[1] == this and (is_c(v) or elems(v) is not None and all(is_c(x) for x in elems(v)))}
        return cache[cls]

    def write(self, st, loc, v, node=None, op='=', event=True):
        if st.dead: return
        if self.wlog is not None: self.wlog.append(loc)
        if event: self.emit('write', st, node or {}, loc=loc, val=v, op=op)
        self.put(st, loc, v)

    def put(self, st, loc, v):
        loc, v = mk(loc), mk(v)
        k = loc[0]
        if k == 'deref' and loc[1][0] == 'addr':
            return self.put(st, loc[1][1], v)
        if k in ('deref', 'fld') and loc[1][0] == 'ite':
            c = loc[1][1]
            for p, cc in ((loc[1][2], c), (loc[1][3], B_not(c))):
                l2 = self.ptr_loc(p) if k == 'deref' else self.fld(p, loc[2], st)
                self.put(st, l2, ite(cc, v, self.read(st, l2)))
            return
        if k == 'elem' or k == 'key':
            cur = self.read_nf(st, loc[1])
            if self.bounds is not None and k == 'elem': self.bound(st, cur, loc[2], 'writes')
            self.put(st, loc[1], store(cur, loc[2], v))
            self.dropfields(st, loc)
            return
        if k == 'fld' and loc[1][0] == 'addr':
            base = loc[1][1]
            if base[0] in ('elem', 'key'):
                whole = self.read(st, base)
                fs = [(n, x) for n, x in (whole[2] if whole[0] == 'obj' else ()) if n != loc[2]]
                b = whole[1] if whole[0] == 'obj' else whole
                self.put(st, base, ('obj', b, tuple(sorted(fs + [(loc[2], v)], key=lambda x: x[0]))))
                return
            ks = st.m.get(('fields', base), ())
            if loc[2] not in ks:
                st.m[('fields', base)] = tuple(sorted(ks + (loc[2],)))
        self.dropfields(st, loc)
        st.m[loc] = v

    def bound(self, st, b, i, what):
        """an access to a list of known length at a known place"""
        if self.mute or not self.frames or st.pc != TRUE or not is_num(i) or b[0] in ('ite', 'idx', 'hav') or b[0] == 'load' and self.arrlen(b) is None: return
        n = size(b)
        if b[0] == 'load' or not is_num(n): n = self.arrlen(b)
        if n is None or not is_num(n) or self.guard(st) != TRUE: return
        if 0 <= i[1] < n[1]: self.bounds[0] += 1
        elif n[1] >= 0: self.bounds.append((self.frame.fn['file'], self.line, self.frame.fn['qn'], what, i[1], n[1], any(f.fn is self.frame.fn for f in self.frames[:-1])))

    def arrlen(self, b):
        """number of elements of memory from new[]"""
        while b[0] == 'store': b = b[1]
        if b[0] == 'load' and b[1][0] == 'arr': return self.arrays.get(b[1][1])
        return None

    def use(self, st, v, what):
        """v decides or goes into something else"""
        if v[0] != 'uninit' or self.bounds is None or not self.frames or self.mute or st.pc != TRUE or self.guard(st) != TRUE: return
        self.bounds.append((self.frame.fn['file'], self.line, self.frame.fn['qn'], what, None, None, any(f.fn is self.frame.fn for f in self.frames[:-1])))

    def read_nf(self, st, loc):
        return self.read(st, loc)

    def dropfields(self, st, loc):
        ks = st.m.pop(('fields', loc), None)
        if ks:
            for f in ks:
                fl = ('fld', ('addr', loc), f)
                st.m.pop(fl, None)
                self.dropfields(st, fl)

    # ---- merging ----------------------------------------------------------------
    def merge(self, states):
        states = [s for s in states if not s.dead]
        if not states: return St({}, FALSE)
        if len(states) == 1: return states[0]
        total = B_or(*[s.pc for s in states])
        conds = [B_constrain(s.pc, total) for s in states]
        keys = set()
        for s in states: keys |= s.m.keys()
        out = {}
        first, rest = states[0].m, [s.m for s in states[1:]]
        for k in keys:
            v = first.get(k)
            if v is not None and all(r.get(k) is v for r in rest):
                out[k] = v
                continue
            vals = []
            for s in states:
                if k in s.m: vals.append(s.m[k])
                elif k[0] == 'fields': vals.append(())
                else: vals.append(None)
            if k[0] == 'fields':
                out[k] = tuple(sorted(set(x for v in vals for x in v)))
                continue
            if any(v is None for v in vals):
                if k[0] == 'var' and k[1] != 0 and len(k) < 4:
                    # declared in one branch only
                    vals = [v if v is not None else ('uninit',) for v in vals]
                else:
                    vals = [v if v is not None else self.read(s, k) for v, s in zip(vals, states)]
            v = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                v = ite(conds[i], vals[i], v)
            out[k] = v
        return St(out, total)

    # ---- statements -------------------------------------------------------------
    def exec(self, s, st, ctl):
        """ctl: {'brk': list, 'cont': list} collecting states"""
        if s is None or st.dead: return st
        self.steps += 1
        self.line = s.get('l') or self.line
        if self.steps > self.budget: raise RuntimeError('analysis budget exceeded in ' + self.frame.fn['qn'])
        k = s['k']
        if k == 'block':
            for x in s['s']:
                st = self.exec(x, st, ctl)
                if st.dead: break
            return st
        if k == 'decl':
            for d in s['d']: self.decl(d, st)
            return st
        if k == 'expr':
            self.eval(s['e'], st)
            return st
        if k == 'null': return st
        if k == 'if':
            if s.get('init'): st = self.exec(s['init'], st, ctl)
            if s.get('cvar'): self.decl(s['cvar'], st)
            c = self.cond(s['c'], st)
            pc0 = st.pc
            if st.dead: return st
            cT, cF = B_and(pc0, c), B_and(pc0, B_not(c))
            a = St({}, FALSE) if cT == FALSE else St(st.m, cT) if cF == FALSE else st.copy(cT)
            b = St(st.m, cF) if cF != FALSE else St({}, FALSE)
            if cT != FALSE: a = self.exec(s['T'], a, ctl)
            if cF != FALSE and s.get('F'): b = self.exec(s['F'], b, ctl)
            return self.merge([a, b])
        if k in ('for', 'while', 'do', 'rfor'): return self.loop(s, st)
        if k == 'switch': return self.switch(s, st, ctl)
        if k == 'return':
            v = None
            if s.get('e') is not None:
                rt = self.frame.fn['ret']
                if is_ref(rt): v = ('addr', self.lval(s['e'], st))
                else: v = self.eval(s['e'], st)
            self.ret(st, v, s)
            st = St({}, FALSE)
            return st
        if k == 'break':
            ctl['brk'].append(st)
            return St({}, FALSE)
        if k == 'continue':
            ctl['cont'].append(st)
            return St({}, FALSE)
        if k == 'throw':
            ty = ''
            v = None
            if s.get('e'):
                ty = s['e']['t']
                v = self.eval(s['e'], st)
            self.emit('throw', st, s, type=ty, val=v, eline=s['l'])
            return St({}, FALSE)
        if k == 'try': return self.trystmt(s, st, ctl)
        if k == 'case' or k == 'default': return st
        # goto / unsupported: everything unknown
        self.emit('unsupported', st, s)
        return st

    def ret(self, st, v, node):
        fr = self.frame
        if v is not None and v[0] == 'uninit': self.use(st, v, 'answers with')
        conds = self.scopes[fr.scope0:]
        lps = self.loops[fr.loop0:]
        self.emit('return', st, node, val=v if v is not None else ('void',), depth=len(self.frames))
        pc = B_and(*(conds + [st.pc]))
        if lps:
            # inside a loop: the function leaves through some iteration
            pc = B_and(fr.loop_pcs[0], atom(('exits', lps[0][0])))
            for l in lps: l[2]['exits'] = True
        fr.rets.append((pc, v, st, bool(lps)))

    def decl(self, d, st):
        loc = self.varloc(d)
        t = d['t']
        if d.get('static'):
            loc = ('static', 'kept:%s:%s' % (d['n'], d['id']))
            if d.get('init') is not None and self.never_written(d):
                asm, self.assume = self.assume, {}
                v = self.init_value(d['init'], t, St({}, TRUE), loc) if not self.history(d['init']) else None
                self.assume = asm
                if v is not None and not contains(mk(v), lambda x: x[0] in ('load', 'sym', 'pref', 'hav', 'uninit')): self.put(st, loc, v)
                # otherwise it is whatever the first call made it
            return
        if is_ref(t) and d.get('init') is not None:
            l = self.lval(d['init'], st)
            self._refs.add((self.frame.fid, d['id']))
            if self.wlog is not None: self.wlog.append(loc)
            self.put(st, loc, ('addr', l) if l[0] != 'tmpv' else ('addr', self.temp(st, l[1])))
            return
        if self.wlog is not None: self.wlog.append(loc)
        if d.get('init') is None:
            v = self.default_value(t, st, d)
            self.emit('decl', st, d, loc=loc, val=v, name=d['n'])
            self.put(st, loc, v)
            return
        v = self.init_value(d['init'], t, st, loc)
        self.emit('decl', st, d, loc=loc, val=v, name=d['n'])
        if v is not None and v[0] != 'constructed':
            self.put(st, loc, v)

    def const_global(self, qn):
        """value of a namespace-scope constant"""
        memo = self.F.__dict__.setdefault('_cglob', {})
        if qn not in memo:
            memo[qn] = None
            for g in self.F.globals.values():
                if g['qn'] == qn and g.get('init') is not None and self.frames:
                    t = g.get('t', '')
                    b = t.split('[')[0].strip()
                    if b.startswith('const ') and not b.endswith('*') or b.endswith('const'):
                        memo[qn] = mk(self.init_value(g['init'], t, St({}, TRUE), ('static', qn)))
        return memo[qn]

    def history(self, n):
        """may this initial value differ from call to call?"""
        if isinstance(n, list): return any(self.history(x) for x in n)
        if not isinstance(n, dict): return False
        k = n.get('k')
        if k == 'this' or k == 'var' and n.get('vk') not in ('global', 'slocal') and n.get('cv') is None and n.get('v') is None: return True
        return any(self.history(x) for x in n.values())

    def never_written(self, d):
        """a function-local static that keeps its initial value"""
        memo = self.F.__dict__.setdefault('_never', {})
        k = (self.frame.fn['usr'], d['id'])
        if k not in memo: memo[k] = d['t'].replace('std::', '').startswith('const') or not self.static_written(d)
        return memo[k]

    def static_written(self, d):
        def uses(n):
            if isinstance(n, dict):
                if n.get('k') == 'var' and n.get('id') == d['id']: return True
                return any(uses(x) for x in n.values())
            return isinstance(n, list) and any(uses(x) for x in n)

        def bad(n):
            if isinstance(n, list): return any(bad(x) for x in n)
            if not isinstance(n, dict): return False
            k = n.get('k')
            if k == 'asg' and uses(n['L']): return True
            if k == 'un' and n.get('op') in ('++', '--', '&') and uses(n['e']): return True
            if k == 'call':
                if n.get('obj') is not None and not n.get('cm') and uses(n['obj']): return True
                for a, pt in zip(n.get('a', []), n.get('pt', [])):
                    if (is_mut_ref(pt) or is_mut_ptr(pt)) and uses(a): return True
            return any(bad(x) for x in n.values())
        return bad(self.frame.fn['body'])

    def default_value(self, t, st=None, node=None):
        t = noref(t)
        m = re.match(r'^(.*\S) ?\[(\d+)\]$', t)
        if m and int(m.group(2)) <= 64:
            b = self.default_value(m.group(1), st, node)
            return ('uninit',) if b[0] == 'uninit' else ('list', (b,) * int(m.group(2)))
        if CONTAINERS.match(t):
            if re.match(r'(const )?std::array<', t): return ('uninit',)
            if re.match(r'(const )?std::(__cxx11::)?basic_string<', t): return C('')
            return EMPTY
        if SMART.match(t): return NULL
        if SCALAR.match(t) or t.endswith('*') or t in self.F.enums: return ('uninit',)
        if '[' in t: return ('uninit',)
        if t.startswith('std::'): return ('dflt', t)
        return ('dflt', t)

    def init_value(self, e, t, st, loc):
        """initialise an object of type t at loc from e"""
        if e['k'] == 'ctor':
            return self.construct(e, st, loc)
        if e['k'] == 'list' and '[' in t:
            return ('list', tuple(self.eval(x, st) for x in e['a']))
        return self.eval(e, st)

    def varloc(self, d):
        l = mk(('var', self.frame.fid, d['id'], d['n']))
        self.frame.locs.add(l)
        return l

    # ---- control flow -----------------------------------------------------------
    def switch(self, s, st, ctl):
        cv = self.eval(s['c'], st)
        pc0 = st.pc
        items = s['items']
        ks = [C(i['cv']) for i in items if i['k'] == 'case' and 'cv' in i]
        anyk = B_or(*[eq(cv, k) for k in ks]) if ks else FALSE
        cur = St({}, FALSE)
        brk = []
        c2 = {'brk': brk, 'cont': ctl['cont']}
        hasdef = any(i['k'] == 'default' for i in items)
        for it in items:
            if it['k'] in ('case', 'default'):
                c = eq(cv, C(it['cv'])) if it['k'] == 'case' else B_not(anyk)
                e = st.copy(B_and(pc0, c))
                cur = self.merge([cur, e])
                continue
            if cur.dead: continue
            cur = self.exec(it, cur, c2)
        outs = [cur] + brk
        if not hasdef: outs.append(st.copy(B_and(pc0, B_not(anyk))))
        return self.merge(outs)

    def trystmt(self, s, st, ctl):
        self.lid += 1
        ex = atom(('exc', self.lid))
        entry = st.copy()
        # the body may be left at any point: find what it writes
        old = self.wlog
        self.wlog = []
        n0 = len(self.events)
        body = self.exec(s['body'], st.copy(), ctl)
        wl = self.wlog
        self.wlog = old
        if old is not None: old.extend(wl)
        outs = []
        body_pc = body.pc
        if not body.dead:
            body.pc = B_and(body.pc, B_not(ex))
            outs.append(body)
        for h in s['h']:
            hs = entry.copy(B_and(entry.pc, ex))
            for l in set(wl):
                r = self.root(l)
                if r in hs.m or r[0] == 'fld':
                    self.put(hs, r, ('after', ('exc', self.lid), self.read(entry, r), self.read(body, r) if not body.dead else self.unk('exc')))
            self.emit('catch', hs, h, type=h.get('t', '...'))
            hs = self.exec(h['body'], hs, ctl)
            outs.append(hs)
        return self.merge(outs)

    def root(self, loc):
        while loc[0] in ('elem', 'key') or (loc[0] == 'fld' and loc[1][0] == 'addr' and loc[1][1][0] in ('elem', 'key')):
            loc = loc[1] if loc[0] != 'fld' else loc[1][1]
        if loc[0] == 'deref' and loc[1][0] == 'addr': return self.root(loc[1][1])
        return loc

    def loop(self, s, st):
        k = s['k']
        self.lid += 1
        L = self.lid
        if k == 'for' and s.get('init'): st = self.exec(s['init'], st, {'brk': [], 'cont': []})
        elemloc = None
        dom = None
        if k == 'rfor':
            rl = self.lval(s['range'], st)
            if rl[0] == 'tmpv': rl = self.temp(st, rl[1])
            rv = self.read(st, rl)
            dom = ('range', size(rv))
        if k == 'algo':
            rl, rv = s['algo'][0], s['algo'][1]
            dom = ('range', size(rv))
        entry = st.copy()
        pre_pc = st.pc
        if self.unroll and k in ('for', 'rfor', 'while'):
            r = self.unrolled(s, st, k, rl if k == 'rfor' else None, dom)
            if r is not None: return r
        elif k == 'rfor' and rv[0] == 'list' and len(rv[1]) <= 6 and all(x[0] in ('addr', 'c') for x in rv[1]):
            # a written-out list of places or values
            r = self.unrolled(s, st, k, rl, dom, 6)
            if r is not None: return r
        it = mk(('iter', L))

        def run(start, first):
            """one symbolic iteration from `start`; returns (end state, info)"""
            cur = start
            info = {'exits': False}
            ctl = {'brk': [], 'cont': []}
            cnd = TRUE
            if k == 'rfor':
                v = s['v']
                vl = self.varloc(v)
                el = ('elem', rl, it)
                if is_ref(v['t']) or v.get('ref'):
                    self._refs.add((self.frame.fid, v['id']))
                    self.put(cur, vl, ('addr', el))
                else: self.put(cur, vl, self.read(cur, el))
            elif k in ('for', 'while') and s.get('c') is not None:
                cnd = self.cond(s['c'], cur)
            self.loops.append((L, dom if dom else ('cond', cnd), info))
            self.scopes.append(B_and(pre_pc))
            if not hasattr(self.frame, 'loop_pcs') or True: self.frame.loop_pcs.append(pre_pc)
            cur.pc = cnd if dom is None else TRUE
            if dom is not None and k not in ('rfor', 'algo'): cur.pc = B_constrain_dom(cnd, dom, it)
            if k == 'algo':
                from . import stdlib
                r = stdlib.call_value(self, s['node'], cur, s['algo'][2], [('REF', ('elem', rl, it))])
                if s['algo'][3] == 'transform' and s['algo'][4] is not None:
                    o = s['algo'][4]
                    if r is not None and r[0] == 'LV': r = self.read(cur, r[1])
                    if o[0] == 'backins': self.write(cur, o[1], append(self.read(cur, o[1]), r), s['node'], op='append')
                    elif o[0] == 'addr' and o[1][0] == 'elem': self.write(cur, ('elem', o[1][1], add(o[1][2], it)), r, s['node'])
            elif cur.pc != FALSE: cur = self.exec(s['body'], cur, ctl)
            cur = self.merge([cur] + ctl['cont'])
            if not cur.dead:
                if k == 'for' and s.get('inc') is not None: self.eval(s['inc'], cur)
                if k == 'do': cnd = self.cond(s['c'], cur)
            self.frame.loop_pcs.pop()
            self.scopes.pop()
            self.loops.pop()
            info['brk'] = ctl['brk']
            info['cnd'] = cnd
            return cur, info

        # pass 1: what is written (repeat until stable)
        self.mute += 1
        oldlog = self.wlog
        written = []
        ind = {}
        outer_rets = list(self.frame.rets)
        ev_nid = None
        for rnd in range(4):
            self.wlog = []
            s0 = self.havoc(entry, written, L)
            end, info = run(s0, True)
            new = []
            for l in self.wlog:
                r = self.root(l)
                if r not in written and r not in new: new.append(r)
            self.frame.rets[:] = outer_rets
            if not new: break
            written += new
        # induction variables
        s0 = self.havoc(entry, written, L)
        hv = {l: s0.m.get(l) for l in written}
        self.wlog = []
        end, info = run(s0, True)
        self.frame.rets[:] = outer_rets
        cont = None
        for l in written:
            if l not in entry.m: continue
            e = end.m.get(l) if not end.dead else None
            if e is None: continue
            step = self.stepof(e, ('hav', L, l))
            if step is not None and step != 0: ind[l] = step
        # domain
        self.wlog = oldlog
        if dom is None and k in ('for', 'while') and s.get('c') is not None:
            s1 = self.havoc(entry, written, L, ind)
            c = self.cond(s['c'], s1)
            dom = self.domain(c, it, L, written)
        self.mute -= 1
        # pass 2: with induction variables expressed by the iteration number
        s1 = self.havoc(entry, written, L, ind)
        s1_start = s1.copy()
        self.wlog = []
        end, info = run(s1, False)
        for l in set(written): (oldlog.append(l) if oldlog is not None else None)
        self.wlog = oldlog
        # after the loop
        out = entry.copy()
        brk = info['brk']
        for l in written:
            if l not in entry.m and l[0] == 'var': continue
            p = self.read(entry, l)
            if l in ind and not brk:
                if dom and dom[0] == 'range':
                    self.put(out, l, add_step(p, ind[l], dom[1]))
                    continue
            h = self.read(s1_start, l)
            e = self.read(end, l) if not end.dead else None
            bv = [self.read(b, l) for b in brk if not b.dead]
            self.put(out, l, self.after(L, dom, l, p, h, e, bv, bool(brk) or info['exits'], info, ind))
        if info['exits']:
            out.pc = B_and(pre_pc, B_not(atom(('exits', L))))
        if k == 'for' and s.get('c') is None or (k == 'while' and (s['c'].get('v') is True or s['c'].get('cv'))):
            if not brk: out.pc = FALSE
        return out

    def broken(self, msg, s):
        e = Broken(msg)
        e.where = '%s:%s' % (self.frame.fn.get('file', ''), s.get('l', ''))
        return e

    def unrolled(self, s, st, k, rl, dom, most=0):
        """iterations of a loop whose trip count is a known small number, one after the other"""
        if k == 'rfor' and not (is_num(dom[1]) and dom[1][1] <= max(self.unroll, most)): return None
        ne, nl = len(self.events), len(self.wlog) if self.wlog is not None else 0
        nr = len(self.frame.rets)
        cur = st.copy()
        brk = []
        n = 0
        while True:
            if cur.dead: break
            if k == 'rfor':
                if n >= dom[1][1]: break
                v = s['v']
                vl = self.varloc(v)
                el = ('elem', rl, C(n))
                if is_ref(v['t']) or v.get('ref'):
                    self._refs.add((self.frame.fid, v['id']))
                    self.put(cur, vl, ('addr', el))
                else: self.put(cur, vl, self.read(cur, el))
            elif s.get('c') is not None:
                c = simp(self.cond(s['c'], cur), cur.pc)
                if c == FALSE: break
                if c != TRUE or n > self.unroll:
                    del self.events[ne:]
                    del self.frame.rets[nr:]
                    if self.wlog is not None: del self.wlog[nl:]
                    return None
            elif n > self.unroll: return None
            if k != 'rfor' and n == 12: seen = (dict(cur.m), len(brk), len(self.frame.rets))
            if k != 'rfor' and n == 17 and seen[1:] == (len(brk), len(self.frame.rets)) and cur.pc == TRUE and all(a in cur.m and cur.m[a] == b for a, b in seen[0].items()):
                raise self.broken('a loop of %s never ends' % self.frame.fn.get('qn'), s)
            ctl = {'brk': [], 'cont': []}
            cur = self.exec(s['body'], cur, ctl)
            brk += ctl['brk']
            cur = self.merge([cur] + ctl['cont'])
            n += 1
            if not cur.dead and k == 'for' and s.get('inc') is not None: self.eval(s['inc'], cur)
        return self.merge([cur] + brk)

    def algo_loop(self, fake, st, e):
        fake['node'] = e
        out = self.loop(fake, st)
        st.m, st.pc = out.m, out.pc
        return ('void',)

    def stepof(self, e, h):
        if e == h: return None
        kk, d = lin_parts(e)
        if d == {h: 1} and isinstance(kk, (int,)): return kk
        if e[0] == 'addr' and e[1][0] == 'elem': return self.stepof(e[1][2], h)
        return None

    def havoc(self, entry, written, L, ind={}):
        s = entry.copy()
        for l in written:
            if l[0] == 'fields': continue
            if l in ind:
                self.put(s, l, add_step(self.read(entry, l), ind[l], ('iter', L)))
            elif l in entry.m or l[0] != 'var':
                p = self.read(entry, l)
                if p[0] == 'addr' and p[1][0] == 'elem':
                    # an iterator / pointer into an array: only its position changes
                    self.put(s, l, ('addr', ('elem', p[1][1], ('hav', L, l))))
                    # position is reconstructed as induction below
                    if l in ind: pass
                else:
                    self.put(s, l, ('hav', L, l))
        return s

    def domain(self, c, it, L, written):
        """iteration count when the continuation condition is  it < N  (or !=)"""
        cands = []
        ats = b_atoms(c)
        for a in ats:
            pol = None
            pa = atom(a)
            if B_and(c, B_not(pa)) == FALSE: pol = True
            elif B_and(c, pa) == FALSE: pol = False
            else: continue
            if a[0] not in ('lt', 'eq'): continue
            x, y = a[1], a[2]
            d = add(x, y, -1)
            kk, ds = lin_parts(d)
            ci = ds.get(it)
            if ci is None: continue
            rest = mk_lin(kk, {t: v for t, v in ds.items() if t != it})
            if contains(rest, lambda t: t[0] in ('iter', 'hav') and t[1] == L): continue
            if a[0] == 'lt' and pol and ci == 1:      # it + rest < 0
                cands.append(mul(C(-1), rest))
            elif a[0] == 'lt' and not pol and ci == -1:  # not (rest - it < 0)  ->  it <= rest
                cands.append(add(rest, C(1)))
            elif a[0] == 'eq' and not pol and ci in (1, -1):
                cands.append(mul(C(-1), rest) if ci == 1 else rest)
        if cands: return ('range', cands[0])
        return None

    def after(self, L, dom, l, p, h, e, bv, early, info, ind):
        if e is not None and e == h and all(b == h for b in bv): return p
        if not early and dom and dom[0] == 'range' and e is not None:
            if not contains_hav(e, L, h):
                pass
            # append in each iteration (maybe guarded)
            r = self.seq_after(L, dom, p, h, e)
            if r is not None: return r
        vals = tuple(([e] if e is not None else []) + bv)
        # a value that never depends on iteration or on previous iterations
        return ('after', L, p, vals, dom if dom else ('range?',))

    def seq_after(self, L, dom, p, h, e):
        g = TRUE
        if e[0] == 'ite':
            if e[3] == h: g, e = e[1], e[2]
            elif e[2] == h: g, e = B_not(e[1]), e[3]
        if e[0] == 'append' and e[1] == h and not contains(e[2], lambda t: t == h):
            v = e[2]
            # appending the elements of another sequence one by one
            if g == TRUE and v[0] == 'idx' and v[2] == ('iter', L) and not contains(v[1], lambda t: t == ('iter', L)) \
                    and dom[1] == size(v[1]):
                return concat(p, v[1])
            return ('map', p, (L, dom, 0), g, v)
        if e[0] == 'concat' and e[1] == h and not contains(e[2], lambda t: t == h):
            return ('mapcat', p, (L, dom, 0), g, e[2])
        if e[0] == 'store' and e[1] == h and g == TRUE and not contains(e[3], lambda t: t == h):
            off = add(e[2], ('iter', L), -1)
            if is_num(off):
                full = off == C(0) and same_quick(size(p), dom[1])
                return ('filled', p if not full else ('sized', dom[1]), (L, dom, off), e[3]) if full or True else None
        return None

    # ---- expressions ------------------------------------------------------------
    def cond(self, e, st):
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            a = self.cond(e['L'], st)
            if a == (FALSE if e['op'] == '&&' else TRUE): return a
            # right side is evaluated under the left
            pc0 = st.pc
            st.pc = B_and(pc0, a if e['op'] == '&&' else B_not(a))
            if st.pc == FALSE:
                st.pc = pc0
                return a
            b = self.cond(e['R'], st)
            st.pc = pc0
            return B_and(a, b) if e['op'] == '&&' else B_or(a, b)
        if k == 'un' and e['op'] == '!': return B_not(self.cond(e['e'], st))
        v = self.eval(e, st)
        if v[0] == 'uninit': self.use(st, v, 'decides by')
        c = truth(v)
        if self.oracle and c != TRUE and c != FALSE:
            r = self.oracle(c)
            if r is not None: return TRUE if r else FALSE
        return c

    def lval(self, e, st):
        r = self.lval0(e, st)
        return r if type(r) is T else mk(r)

    def lval0(self, e, st):
        k = e['k']
        if k == 'typeid' and e.get('of'): return ('static', 'typeid(%s)' % e['of'])
        if k == 'var':
            vk = e.get('vk')
            if vk in ('global', 'slocal'):
                return ('static', e.get('qn', e['n']) if vk == 'global' else 'kept:%s:%s' % (e['n'], e['id']))
            fr = self.var_frame(e, st)
            loc = ('var', fr, e['id'], e['n'])
            v = st.m.get(loc)
            if v is not None and v[0] == 'addr' and self.is_refvar(loc, e, st): return v[1]
            if v is not None and self.is_refvar(loc, e, st) and v[0] != 'addr':
                return ('deref', v)
            return loc
        if k == 'mem':
            b = e['b']
            f = e['c'] + '::' + e['f']
            if e.get('arrow'):
                p = self.eval(b, st)
                self.deref(p, st, e)
            elif b['k'] == 'this': p = self.frame.this
            else: p = ('addr', self.lval(b, st))
            loc = self.fld(p, f, st)
            if (e['c'], e['f']) in self.reffields():
                v = self.read(st, loc)
                return v[1] if v[0] == 'addr' else ('deref', v)
            return loc
        if k == 'idx':
            p = self.eval(e['b'], st)
            i = self.eval(e['i'], st)
            return self.ptr_elem(p, i)
        if k == 'un' and e['op'] == '*':
            p = self.eval(e['e'], st)
            self.deref(p, st, e)
            return self.ptr_loc(p)
        if k == 'un' and e['op'] in ('++', '--'):
            self.eval(e, st)
            return self.lval(e['e'], st)
        if k == 'asg':
            self.eval(e, st)
            return self.lval(e['L'], st)
        if k == 'cond':
            c = self.cond(e['c'], st)
            return self.ptr_loc(ite(c, ('addr', self.lval(e['T'], st)), ('addr', self.lval(e['F'], st))))
        if k == 'cast':
            return self.lval(e['e'], st)
        if k == 'call':
            v = self.call(e, st, want_lval=True)
            if v is None: v = self.unk('void')
            if v[0] == 'LV': return v[1]
            return self.temp(st, v)
        if k == 'this': return ('thisvar',)
        v = self.eval(e, st)
        return self.temp(st, v)

    def reffields(self):
        r = getattr(self.F, '_reffields', None)
        if r is None:
            r = self.F._reffields = {(c['qn'], f['n']) for c in self.F.classes.values() for f in c['fields'] if is_ref(f['t'])}
        return r

    def ptr_loc(self, p):
        if p[0] == 'addr': return p[1]
        if p[0] == 'sfind': return ('elem', p[1], ('indexof', p[2], p[3]))
        if p[0] == 'mfind': return ('mkey', p[1], p[2], p[3])
        return ('deref', p)

    def ptr_elem(self, p, i):
        if p[0] == 'addr':
            if p[1][0] == 'elem': return ('elem', p[1][1], add(p[1][2], i))
            return p[1] if i == C(0) else ('elem', p[1], i)
        return ('elem', ('arr', p), i)

    def fld(self, p, f, st):
        if p[0] == 'addr' and p[1][0] == 'deref': p = p[1][1]
        if p[0] == 'addr' and p[1][0] == 'mkey':
            if f.endswith('::second'): return ('key', p[1][1], p[1][3])
            if f.endswith('::first'): return ('tmpv', p[1][3])
        loc = ('fld', p, f)
        return loc

    def temp(self, st, v):
        self.nid += 1
        loc = ('tmp', self.nid)
        st.m[loc] = v
        return loc

    def is_refvar(self, loc, e, st):
        return (loc[1], loc[2]) in self.refvars(st)

    def refvars(self, st):
        return self._refs

    _refs = None

    def var_frame(self, e, st):
        # captured variables of an inlined lambda live in an outer frame
        fr = self.frame
        if fr.caps and e['id'] in fr.caps: return fr.caps[e['id']]
        return fr.fid

    def deref(self, p, st, node):
        if self.deref_events: self.emit('deref', st, node, ptr=p)

    def eval(self, e, st):
        r = self.eval0(e, st)
        return r if type(r) is T else mk(r)

    def eval0(self, e, st):
        if e is None: return ('void',)
        k = e['k']
        if k == 'int' or k == 'float' or k == 'bool' or k == 'str': return C(e['v'])
        if k == 'null': return NULL
        if k == 'enum': return C(e['v'])
        if k == 'zero': return C(0)
        if k == 'this': return self.frame.this
        if k == 'fn': return ('fnref', e['fn'])
        if k in ('var', 'mem', 'idx'):
            if 'cv' in e: return C(e['cv'])
            l = self.lval(e, st)
            if l[0] == 'tmpv': return l[1]
            v = self.read(st, l, e['t'])
            if e['t'].rstrip().endswith(']'):   # array decays
                return ('addr', ('elem', l, C(0)))
            return v
        if k == 'un': return self.unary(e, st)
        if k == 'bin': return self.binary(e, st)
        if k == 'asg': return self.assign(e, st)
        if k == 'cond':
            c = self.cond(e['c'], st)
            pc0 = st.pc
            if c == TRUE: return self.eval(e['T'], st)
            if c == FALSE: return self.eval(e['F'], st)
            a, b = st.copy(B_and(pc0, c)), st.copy(B_and(pc0, B_not(c)))
            va = self.eval(e['T'], a) if not a.dead else self.unk()
            vb = self.eval(e['F'], b) if not b.dead else self.unk()
            m = self.merge([a, b])
            st.m, st.pc = m.m, m.pc
            return ite(c, va, vb)
        if k == 'call':
            v = self.call(e, st)
            if v is None: return ('void',)
            if v[0] == 'LV': return self.read(st, v[1], e['t'])
            return v
        if k == 'ctor': return self.construct(e, st, None)
        if k == 'cast':
            v = self.eval(e['e'], st)
            t = noref(e['t'])
            if e['ck'] == 'CXXDynamicCastExpr': return self.dyncast(t, v)
            if isint(t) and not isint(e['e'].get('t', '')) and 'double' in e['e'].get('t', ''):
                if is_num(v): return C(int(v[1]))
                return ('call', 'int', (v,))
            if t == 'bool' and v[0] != 'B' and not is_c(v): return truth(v)
            return v
        if k == 'new': return self.new(e, st)
        if k == 'del':
            v = self.eval(e['e'], st)
            self.emit('delete', st, e, ptr=v, arr=bool(e.get('arr')))
            return ('void',)
        if k == 'list':
            t = noref(e['t'])
            a = e['a']
            m = re.match(r'^(?:const )?std::array<(.*), (\d+)>$', t)
            if m:
                while len(a) == 1 and a[0]['k'] == 'list' and not noref(a[0]['t']).startswith('std::array<' + m.group(1)): a = a[0]['a']
                n, el = int(m.group(2)), m.group(1)
            else:
                m = re.match(r'^(?:const )?(.*?) ?\[(\d+)\]$', t)
                n, el = (int(m.group(2)), m.group(1)) if m else (len(a), '')
            vs = tuple(self.eval(x, st) for x in a)
            if len(vs) < n <= 64 and SCALAR.match(el.strip()): vs += (C(0),) * (n - len(vs))
            return ('list', vs)
        if k == 'sizeof': return C(e['cv']) if 'cv' in e else self.unk('sizeof')
        if k == 'lambda':
            self.register(e)
            return ('lambda', id(e), self.frame.fid, self.frame.this if self.frame.this is not None else NULL)
        if k == 'throw':
            v = self.eval(e['e'], st) if e.get('e') else None
            self.emit('throw', st, e, type=e['e']['t'] if e.get('e') else '', val=v, eline=e['l'])
            st.pc = FALSE
            return ('void',)
        if k == 'typeid':
            if e.get('of'): return self.read(st, ('static', 'typeid(%s)' % e['of']))
            return ('typeid', self.eval(e['e'], st))
        if 'cv' in e: return C(e['cv'])
        for x in e.get('a', []): self.eval(x, st)
        return self.unk(k)

    _lams = {}

    def register(self, e):
        self._lams[id(e)] = e
        return id(e)

    def unary(self, e, st):
        op = e['op']
        if op == '!': return B_not(self.cond(e['e'], st))
        if 'cv' in e and e['e']['k'] in ('int', 'enum'): return C(e['cv'])
        if op == '-': return mul(C(-1), self.eval(e['e'], st))
        if op == '+': return self.eval(e['e'], st)
        if op == '&':
            if e['e']['k'] == 'fn': return self.eval(e['e'], st)
            l = self.lval(e['e'], st)
            if l[0] == 'deref': return l[1]
            return ('addr', l)
        if op == '*':
            l = self.lval(e, st)
            if l[0] == 'thisobj': return ('obj*',)
            return self.read(st, l, e['t'])
        if op in ('++', '--', 'p++', 'p--'):
            l = self.lval(e['e'], st)
            old = self.read(st, l, e['t'])
            if old[0] == 'uninit': self.use(st, old, 'counts with')
            new = add(old, C(1 if '+' in op else -1))
            self.write(st, l, new, e, op='+=')
            return old if op[0] == 'p' else new
        if op == '~': return ('call', '~', (self.eval(e['e'], st),))
        return self.unk(op)

    def binary(self, e, st):
        op = e['op']
        if op in ('&&', '||'): return self.cond(e, st)
        if 'cv' in e: return C(e['cv'])
        if op == ',':
            self.eval(e['L'], st)
            return self.eval(e['R'], st)
        a = self.eval(e['L'], st)
        b = self.eval(e['R'], st)
        if a[0] == 'uninit' or b[0] == 'uninit': self.use(st, a if a[0] == 'uninit' else b, 'computes with')
        return self.binop(op, a, b, isint(e['L'].get('t', '')) and isint(e['R'].get('t', '')))

    def binop(self, op, a, b, ii=True):
        if op == '+': return add(a, b)
        if op == '-': return add(a, b, -1)
        if op == '*': return mul(a, b)
        if op == '/': return div(a, b, ii)
        if op == '%': return mod(a, b)
        if op == '==': return eq(a, b)
        if op == '!=': return B_not(eq(a, b))
        if op == '<': return lt(a, b)
        if op == '>': return lt(b, a)
        if op == '<=': return B_not(lt(b, a))
        if op == '>=': return B_not(lt(a, b))
        if op in ('&', '|', '^') and is_bool(a) and is_bool(b) and (a[0] == 'B' or b[0] == 'B'):
            if op == '&': return B_and(a, b)
            if op == '|': return B_or(a, b)
            return B_ite(a, B_not(b), b)
        if is_num(a) and is_num(b) and isinstance(a[1], int) and isinstance(b[1], int):
            if op == '&': return C(a[1] & b[1])
            if op == '|': return C(a[1] | b[1])
            if op == '^': return C(a[1] ^ b[1])
            if op == '<<': return C(a[1] << b[1])
            if op == '>>': return C(a[1] >> b[1])
        if op == '&' and b == C(1): return mod(a, C(2))
        if op == '>>' and is_num(b): return div(a, C(2 ** b[1]))
        if op == '<<' and is_num(b): return mul(a, C(2 ** b[1]))
        if op == '^' and b == C(1): return ite(eq(mod(a, C(2)), C(0)), add(a, C(1)), add(a, C(-1)))
        if op == '|' and b == C(1): return ite(eq(mod(a, C(2)), C(0)), add(a, C(1)), a)
        return ('call', 'op' + op, (a, b))

    def assign(self, e, st):
        op = e['op']
        if op == '=':
            v = self.eval(e['R'], st)
            if st.dead: return v
            l = self.lval(e['L'], st)
            self.write(st, l, v, e)
            return v
        r = self.eval(e['R'], st)
        l = self.lval(e['L'], st)
        old = self.read(st, l, e['L']['t'])
        if old[0] == 'uninit' or r[0] == 'uninit': self.use(st, old if old[0] == 'uninit' else r, 'computes with')
        v = self.binop(op[:-1], old, r, isint(e['L']['t']) and isint(e['R'].get('t', '')))
        self.write(st, l, v, e, op=op)
        return v

    # ---- objects ----------------------------------------------------------------
    def new(self, e, st):
        self.nid += 1
        p = ('new', self.nid, e['at'])
        n = self.eval(e['n'], st) if e.get('n') is not None else None
        self.emit('new', st, e, ptr=p, arr=bool(e.get('arr')), n=n, at=e['at'])
        if n is not None and is_num(n): self.arrays[mk(p)] = n
        ini = e.get('init')
        if ini is not None and ini['k'] == 'ctor':
            v = self.construct(ini, st, ('deref', p))
            if v is not None and v[0] != 'constructed': st.m[('deref', p)] = v
        elif ini is not None:
            v = self.eval(ini, st)
            st.m[('deref', p)] = v
        return p

    def objptr(self, loc):
        return loc[1] if loc[0] == 'deref' else ('addr', loc)

    def construct(self, e, st, loc):
        """value of a constructor call (or 'constructed' when built in place at loc)"""
        cls = e['cls']
        args = e['a']
        t = noref(e['t'])
        if e.get('copy') or e.get('move'):
            src = self.eval(args[0], st)
            f = self.F.funcs.get(e.get('usr'))
            if f and e.get('repo') and self.should_inline(f) and self.frame is not None and not e.get('nocopyinline'):
                return self.construct_inline(f, e, st, loc)
            return src
        if cls.startswith('std::') or cls.startswith('__gnu_cxx'):
            return self.std_construct(e, st, t)
        f = self.F.funcs.get(e.get('usr'))
        if f is not None and self.should_inline(f):
            return self.construct_inline(f, e, st, loc)
        vals = self.args(e, st, f)
        if not vals and e.get('dflt'):
            return ('dflt', t)
        self.emit('call', st, e, name=e['fn'], obj=self.objptr(loc) if loc else NULL, args=tuple(vals), usr=e.get('usr'), ctor=True)
        return ('call', 'ctor ' + cls, tuple(vals))

    def construct_inline(self, f, e, st, loc):
        inplace = loc is not None
        if not inplace:
            self.nid += 1
            loc = ('tmp', self.nid)
        p = self.objptr(loc)
        vals = self.argvals(e, st, f)
        self.emit('call', st, e, name=e['fn'], obj=p, args=tuple(self.plain(v, st) for v in vals), usr=e.get('usr'), ctor=True, inlined=True)
        self.inline(f, p, vals, st, e)
        if inplace: return ('constructed',)
        return self.read(st, loc)

    def std_construct(self, e, st, t):
        args = e['a']
        m = re.match(r'^(.*\S) ?\[(\d+)\]$', t)
        if m and not args and int(m.group(2)) <= 64: return ('list', (self.std_construct(e, st, m.group(1)),) * int(m.group(2)))
        if SMART.match(t):
            if not args: return NULL
            return self.eval(args[0], st)
        if re.match(r'^(const )?std::pair<', t):
            if len(args) == 2: return ('pair', self.eval(args[0], st), self.eval(args[1], st))
            if len(args) == 1: return self.eval(args[0], st)
        if CONTAINERS.match(t) or 'basic_string' in t:
            isstr = re.match(r'(const )?std::(__cxx11::)?basic_string<', t)
            real = [a for a in args if not (a.get('def') or re.match(r'^(const )?std::(__new_)?allocator<', noref(a.get('t', ''))))]
            if isstr:
                if not real: return C('')
                v = self.eval(real[0], st)
                if len(real) == 1: return v
                vs = tuple(self.eval(x, st) for x in real[1:])
                return ('call', 'string', (v,) + vs)
            m = re.match(r'^(?:const )?std::array<(.*), (\d+)>$', noref(t))
            if not real: return ('list', tuple(self.unk('array') for _ in range(int(m.group(2))))) if m and int(m.group(2)) <= 64 else EMPTY
            if real[0]['k'] == 'list': return self.eval(real[0], st)
            vs = [self.eval(a, st) for a in real]
            if len(vs) == 1:
                if isint(noref(real[0]['t'])): return resize(EMPTY, vs[0], self.zero_elem(t))
                return vs[0]
            if len(vs) == 2:
                rng = self.range_of(vs[0], vs[1], st)
                if rng is not None: return rng
                if isint(noref(real[0]['t'])): return resize(EMPTY, vs[0], vs[1])
            return ('call', 'container', tuple(vs))
        if not args: return ('dflt', t)
        vs = tuple(self.eval(a, st) for a in args)
        if len(vs) == 1 and (t.startswith('std::function') or 'iterator' in t): return vs[0]
        return ('call', 'ctor ' + t.split('<')[0], vs)

    def zero_elem(self, t):
        t = t.rstrip('* ')
        m = re.match(r'^(?:const )?std::vector<(.*), std::allocator<.*>>$', t)
        if m:
            et = m.group(1)
            if CONTAINERS.match(et): return self.default_value(et)
            if SCALAR.match(et): return C(0)
            if SMART.match(et) or et.endswith('*'): return NULL
            return ('dflt', et)
        return C(0)

    def range_of(self, b, e, st):
        """the sequence [b,e)"""
        if b[0] == 'addr' and b[1][0] == 'elem' and e[0] == 'addr' and e[1][0] == 'elem' and b[1][1] == e[1][1]:
            loc = b[1][1]
            v = self.read(st, loc)
            if b[1][2] == C(0) and (e[1][2] == size(v)): return v
            if self.bounds is not None and is_num(b[1][2]) and is_num(e[1][2]) and is_num(size(v)) and not 0 <= b[1][2][1] <= e[1][2][1] <= size(v)[1]:
                self.misfit(st, 'takes elements %d to %d of a list of %d' % (b[1][2][1], e[1][2][1], size(v)[1]))
            return slice_(v, b[1][2], e[1][2])
        if b[0] == 'addr' and b[1][0] == 'elem' and e[0] == 'addr' and e[1][0] == 'elem' and self.other_list(b[1][1], e[1][1]):
            self.misfit(st, 'takes a range that begins in one list and ends in another')
        return None

    def other_list(self, a, b):
        """two places that certainly hold different lists"""
        if a == b or not all(x[0] in ('var', 'tmp', 'fld') for x in (a, b)): return False
        if a[0] != 'fld' or b[0] != 'fld' or a[2] != b[2]: return True
        return a[1][0] in ('addr', 'new') and b[1][0] in ('addr', 'new')

    def same_list(self, st, a, b):
        """two positions that are compared"""
        if self.bounds is None: return

        def lists(v):
            if v[0] == 'ite': return lists(v[2]) | lists(v[3])
            return {v[1][1]} if v[0] == 'addr' and v[1][0] == 'elem' else {None}
        la, lb = lists(a), lists(b)
        if None in la or None in lb: return
        if all(self.other_list(x, y) for x in la for y in lb): self.misfit(st, 'compares positions in two different lists')

    def misfit(self, st, what):
        if self.mute or self.bounds is None or not self.frames or st.pc != TRUE or self.guard(st) != TRUE: return
        self.bounds.append((self.frame.fn['file'], self.line, self.frame.fn['qn'], what, 'range', 0, any(f.fn is self.frame.fn for f in self.frames[:-1])))

    def dyncast(self, t, v):
        if v == NULL: return NULL
        if v[0] == 'ite': return ite(v[1], self.dyncast(t, v[2]), self.dyncast(t, v[3]))
        x = exact(v)
        if x:
            m = re.match(r'^std::shared_ptr<(.*)>$', noref(t))
            c = (m.group(1) if m else noref(t).rstrip('* ')).replace('const ', '').strip()
            r = self.F.is_a(x, c)
            if r is not None and c in self.F.classes: return v if r else NULL
        return ('cast', t, v)

    # ---- calls ------------------------------------------------------------------
    def should_inline(self, f):
        if f is None or f.get('body') is None: return False
        if len(self.frames) > self.max_depth: return False
        if f['qn'] in self.opaque or f['usr'] in self.opaque: return False
        if self.inline_pred is not None and not self.inline_pred(f): return False
        if sum(fr.fn['usr'] == f['usr'] for fr in self.frames) > self.recurse: return False
        return True

    def resolve(self, e):
        f = self.F.funcs.get(e.get('usr'))
        if f is None: return None
        if e.get('virt') and not e.get('qual') and (f['usr'] in self.F.overridden or f['usr'] in self.F.overridden): return None
        return f

    def args(self, e, st, f=None):
        return [self.plain(v, st) for v in self.argvals(e, st, f)]

    def plain(self, v, st):
        if v[0] == 'REF': return self.read(st, v[1])
        return v

    def argvals(self, e, st, f=None):
        """argument values; reference parameters become ('REF', loc)"""
        out = []
        pt = e.get('pt', [])
        for i, a in enumerate(e['a']):
            t = pt[i] if i < len(pt) else ''
            if is_ref(t):
                l = self.lval(a, st)
                if l[0] == 'tmpv': out.append(l[1])
                else: out.append(('REF', l))
            else:
                out.append(self.eval(a, st))
        return out

    def call(self, e, st, want_lval=False):
        fn = e.get('fn')
        if fn is None: return self.call_indirect(e, st)
        if fn in self.hooks:
            r = self.hooks[fn](self, st, e)
            if r is not None: return r
        if '(anonymous class)' in fn and fn.endswith('operator()') and e.get('obj') is not None:
            from . import stdlib
            c = self.eval(e['obj'], st)
            if c[0] == 'lambda': return stdlib.call_value(self, e, st, c, self.argvals(e, st))
        if not e.get('repo'):
            from . import stdlib
            return stdlib.call(self, e, st, want_lval)
        f = self.resolve(e)
        obj = None
        objloc = None
        if e.get('obj') is not None:
            o = e['obj']
            if e.get('arrow') or (o['k'] == 'this'):
                obj = self.eval(o, st)
                if o['k'] != 'this': self.deref(obj, st, e)
            else:
                objloc = self.lval(o, st)
                obj = self.objptr(objloc)
        if f is None and e.get('virt') and obj is not None and exact(obj): f = self.F.overrider(exact(obj), e.get('usr'))
        vals = self.argvals(e, st, f)
        if st.dead: return ('void',)
        if self.should_inline(f):
            self.emit('call', st, e, name=fn, obj=obj if obj is not None else NULL, args=tuple(self.plain(v, st) for v in vals), usr=e['usr'], inlined=True)
            r = self.inline(f, obj, vals, st, e)
            if is_ref(f['ret']):
                if r is None: return ('void',)
                return ('LV', self.ptr_loc(r))
            return r
        return self.opaque_call(e, st, obj, objloc, vals, want_lval)

    def opaque_call(self, e, st, obj, objloc, vals, want_lval=False):
        fn = e['fn']
        self.nopaque.add(fn)
        pt = e.get('pt', [])
        ins = []
        outs = []
        for i, v in enumerate(vals):
            t = pt[i] if i < len(pt) else ''
            if v[0] == 'REF':
                if is_mut_ref(t):
                    outs.append((i, v[1])); ins.append(('outarg',))
                else: ins.append(self.read(st, v[1]))
            elif is_mut_ptr(t) and v[0] == 'addr' and v[1][0] != 'static' and not self.is_obj_ptr(t):
                outs.append((i, v[1])); ins.append(('outarg',))
            else: ins.append(v)
        ov = obj if obj is not None else NULL
        if objloc is not None and obj[0] == 'addr' and objloc[0] in ('var', 'tmp', 'elem', 'fld', 'key') and not e.get('virt'):
            ov = self.read(st, objloc)
        name = fn if not e.get('targs') else fn
        ta = self.targs_of(e)
        term = ('call', fn + ta, (ov,) + tuple(ins))
        self.emit('call', st, e, name=fn, obj=ov, args=tuple(ins), usr=e.get('usr'), outs=tuple(l for _, l in outs), term=term,
                  argrefs=tuple(v for v in vals))
        for i, l in outs:
            if l[0] == 'elem' and is_mut_ptr(pt[i]):
                # a buffer: its contents become unknown
                self.write(st, self.root(l), ('out', term, i), e, op='out')
            else:
                self.write(st, l, ('out', term, i), e, op='out')
        if objloc is not None and not e.get('cm') and objloc[0] in ('var', 'tmp', 'elem', 'fld') and e.get('obj') is not None and not e.get('smeth'):
            self.write(st, objloc, ('mut', fn, self.read(st, objloc), tuple(ins)), e, op='mut')
        if e.get('noret'):
            st.pc = FALSE
            return ('void',)
        if e['t'] == 'void': return ('void',)
        ret = self.rettype(e)
        if is_ref(ret): return ('LV', ('deref', term))
        if noref(e['t']).replace('const ', '') == 'bool': return truth(('typed', 'bool', term))
        return term

    def is_obj_ptr(self, t):
        b = t.strip()
        if b.endswith('const'): b = b[:-5].strip()
        b = b.rstrip('*').strip()
        return b in self.F.classes

    def targs_of(self, e):
        return ''

    def rettype(self, e):
        d = self.F.decls.get(e.get('usr'))
        if d: return d[1]['ret']
        f = self.F.funcs.get(e.get('usr'))
        if f: return f['ret']
        return e['t']

    def call_indirect(self, e, st):
        c = self.eval(e['callee'], st) if e.get('callee') else self.unk()
        vals = [self.eval(a, st) for a in e['a']]
        return ('call', 'indirect', (c,) + tuple(vals))

    def inline(self, f, this, vals, st, node, caps=None):
        """inline a call; st is updated in place; returns the value"""
        self.ninlined.add(f['usr'])
        self.fid += 1
        fr = Frame(f, self.fid, this)
        fr.caps = caps
        fr.loop0 = len(self.loops)
        fr.loop_pcs = []
        if self._refs is None: self._refs = set()
        self.frames.append(fr)
        self.scopes.append(st.pc)
        fr.scope0 = len(self.scopes)
        s = St(st.m, TRUE)
        for p, v in zip(f['params'], vals):
            self.bind(s, p, v, fr)
        for p in f['params'][len(vals):]:
            d = p.get('dflt')
            self.bind(s, p, self.eval(d, s) if isinstance(d, dict) else self.unk('default'), fr)
        if f['kind'] in ('ctor', 'copyctor', 'movector'): self.ctor_inits(f, this, s)
        ctl = {'brk': [], 'cont': []}
        try:
            s = self.exec(f['body'], s, ctl)
        finally:
            self.frames.pop()
            self.scopes.pop()
        states = []
        conds = []
        for pc, v, rs, inl in fr.rets:
            rs.pc = pc
            states.append(rs)
            conds.append((pc, v))
        if not s.dead:
            states.append(s)
            conds.append((s.pc, None))
        live = [(x, c) for x, c in zip(states, conds) if not x.dead]
        m = self.merge([x for x, _ in live])
        if not m.dead:
            st.m = m.m
            for k in fr.locs: st.m.pop(k, None)
        st.pc = B_and(st.pc, m.pc)
        if not live: return None
        total = m.pc
        vs = [(B_constrain(c[0], total), c[1]) for _, c in live if c[1] is not None]
        if not vs: return None
        r = vs[-1][1]
        for c, v in reversed(vs[:-1]): r = ite(c, v, r)
        return r

    def bind(self, s, p, v, fr):
        loc = mk(('var', fr.fid, p['id'], p['n']))
        fr.locs.add(loc)
        if is_ref(p['t']):
            self._refs.add((fr.fid, p['id']))
            if v[0] == 'REF': s.m[loc] = ('addr', v[1])
            else: s.m[loc] = ('addr', self.temp(s, v))
        else:
            s.m[loc] = self.plain(v, s) if v[0] == 'REF' else v

    def ctor_inits(self, f, this, s):
        for i in f.get('inits', []):
            e = i['e']
            if i.get('base') or i.get('deleg'):
                if e is not None and e['k'] == 'ctor':
                    g = self.F.funcs.get(e.get('usr'))
                    if g is not None and self.should_inline(g):
                        vals = self.argvals(e, s, g)
                        self.emit('call', s, e, name=e['fn'], obj=this, args=tuple(self.plain(v, s) for v in vals), usr=e.get('usr'), ctor=True, inlined=True)
                        self.inline(g, this, vals, s, e)
                    else:
                        vals = self.args(e, s)
                        self.emit('call', s, e, name=e['fn'], obj=this, args=tuple(vals), usr=e.get('usr'), ctor=True)
                continue
            loc = ('fld', this, i['c'] + '::' + i['f'])
            cls = self.F.class_by_qn.get(i['c'])
            ft = next((x['t'] for x in (cls or {}).get('fields', []) if x['n'] == i['f']), '')
            if e is None:
                continue
            if is_ref(ft):
                self.put(s, loc, ('addr', self.lval(e, s)))
                continue
            v = self.init_value(e, ft, s, loc) if e['k'] != 'list' else self.eval(e, s)
            if v is not None and v[0] != 'constructed':
                self.write(s, loc, v, {'l': i['l']}, op='init')

    # ---- entry ------------------------------------------------------------------
    def run(self, f, this=('sym', 'this'), params=None, ctor=None):
        """summarise f with symbolic parameters"""
        self.fid += 1
        fr = Frame(f, self.fid, this)
        fr.caps = None
        fr.loop0 = 0
        fr.loop_pcs = []
        if self._refs is None: self._refs = set()
        self.frames.append(fr)
        s = St({}, TRUE)
        self.outparams = {}
        for n, p in enumerate(f['params']):
            loc = ('var', fr.fid, p['id'], p['n'])
            sym = ('sym', p['n'] or 'arg%d' % n)
            if params and p['n'] in params: sym = params[p['n']]
            elif params and n in params: sym = params[n]
            if is_ref(p['t']):
                self._refs.add((fr.fid, p['id']))
                if sym[0] == 'REF':        # the parameter refers to this location
                    s.m[loc] = sym[1][1] if sym[1][0] == 'deref' else ('addr', sym[1])
                    self.outparams[n] = sym[1]
                    continue
                tgt = ('pref', p['n'] or 'arg%d' % n)
                s.m[loc] = ('addr', tgt)
                s.m[tgt] = sym if not (params and (p['n'] in params or n in params)) else sym
                self.outparams[n] = tgt
            else:
                t = p['t'].replace('const ', '').strip()
                if t == 'bool' and not is_c(sym): sym = ('typed', 'bool', sym)
                s.m[loc] = sym
                if p['t'].strip().endswith('*'): self.outparams[n] = ('deref', sym)
        if f['kind'] in ('ctor', 'copyctor', 'movector'): self.ctor_inits(f, this, s)
        s = self.exec(f['body'], s, {'brk': [], 'cont': []})
        states = []
        self.result_parts = []
        for pc, v, rs, inl in fr.rets:
            rs.pc = pc
            states.append(rs)
            self.result_parts.append((pc, v))
        if not s.dead:
            states.append(s)
            if f['ret'] != 'void' and f['kind'] not in ('ctor', 'copyctor', 'movector', 'dtor'):
                self.emit('fallsoff', s, f['eline'])
        m = self.merge(states)
        self.final = m
        r = None
        ps = [(c, v) for c, v in self.result_parts if v is not None]
        if ps:
            total = m.pc
            r = ps[-1][1]
            for c, v in reversed(ps[:-1]): r = ite(B_constrain(c, total) if total not in (TRUE, FALSE) else c, v, r)
        self.result = r
        self.frames.pop()
        return self


def is_ref_field(e): return is_ref(e['t'])


def add_step(p, step, n):
    return add(p, mul(C(step), n))


def contains_hav(e, L, h): return contains(e, lambda t: t == h)


def same_quick(a, b): return a == b


def B_constrain_dom(cnd, dom, it):
    """the part of a loop condition that is not the iteration bound"""
    if dom is None: return cnd
    return ('c', 1) if cnd == TRUE else _drop(cnd, dom, it)


def _drop(cnd, dom, it):
    bound = lt(it, dom[1])
    if cnd == bound: return TRUE
    ne = B_not(eq(it, dom[1]))
    if cnd == ne: return TRUE
    r = B_constrain(cnd, bound)
    r2 = B_constrain(r, ne) if ne not in (TRUE, FALSE) else r
    return r2
