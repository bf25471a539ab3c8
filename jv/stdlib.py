"""Models of the library calls the repository uses."""
import math
from .terms import *
from .engine import noref, is_ref, is_mut_ref, is_mut_ptr, isint, CONTAINERS, SMART, St, Frame


def tiled(t):
    """pieces copied into a list that cover it one after the other make up its value"""
    ps, b = [], t
    while b[0] == 'copyinto':
        ps.append((b[2], b[3])); b = b[1]
    starts = [(C(0), EMPTY)]
    if b[0] == 'resize': starts.append((size(b[1]), b[1]))
    for pos, r in starts:
        left = list(ps)
        while left:
            q = next((x for x in left if x[0] == pos), None)
            if q is None: break
            left.remove(q)
            r = concat(r, q[1]); pos = add(pos, size(q[1]))
        if not left and pos == size(b): return r
    return t


def locked(t):
    """the shared pointer of a weak pointer; one to a given object is that object"""
    return t if t[0] in ('addr', 'new') or t == ('sym', 'this') else ('call', 'lock', (t,))


def lastname(fn):
    # strip template arguments, keep the last component
    depth = 0
    out = []
    i = len(fn)
    if '::operator' in fn or fn.startswith('operator'):
        return fn[fn.rindex('operator'):]
    return fn.split('>')[-1].split('::')[-1] if not fn.endswith('>') else fn.split('<')[0].split('::')[-1]


def obj_of(I, e, st):
    """(pointer term, location) of the object a library method is called on"""
    o = e['obj']
    if e.get('arrow'):
        p = I.eval(o, st)
        I.deref(p, st, e)
        return p, I.ptr_loc(p)
    l = I.lval(o, st)
    return I.objptr(l), l


def seq_of(I, b, e, st):
    if b[0] == 'REF': b = I.read(st, b[1])
    if e[0] == 'REF': e = I.read(st, e[1])
    return I.range_of(b, e, st)


def call(I, e, st, want_lval):
    fn = e['fn']
    n = lastname(fn)
    args = e['a']
    ev = lambda i: I.eval(args[i], st)
    objt = noref(e['obj']['t']).replace('const ', '') if e.get('obj') is not None else ''

    if fn.startswith('std::type_info::operator') and n in ('operator==', 'operator!=') and len(args) == 1:
        a, b = I.read(st, I.lval(e['obj'], st)), ev(0)
        isid = lambda t: t[0] == 'load' and t[1][0] == 'static' and str(t[1][1]).startswith('typeid(')
        r = (TRUE if a == b else FALSE) if isid(a) and isid(b) else eq(a, b)
        return r if n == 'operator==' else B_not(r)
    # ---- methods ----
    if e.get('obj') is not None:
        if 'shared_ptr' in fn or 'unique_ptr' in fn or 'weak_ptr' in fn or (SMART.match(objt) and 'vector' not in fn):
            if n == 'operator->' or n == 'get' and 'std::' in fn:
                return I.eval(e['obj'], st)
            if n == 'operator*':
                p = I.eval(e['obj'], st)
                I.deref(p, st, e)
                return ('LV', I.ptr_loc(p))
            if n == 'operator bool':
                return truth(I.eval(e['obj'], st))
            if n in ('operator=', 'reset'):
                l = I.lval(e['obj'], st)
                v = I.eval(args[0], st) if args else NULL
                I.write(st, l, v, e)
                return ('LV', l)
            if n == 'release':
                l = I.lval(e['obj'], st)
                v = I.read(st, l)
                I.write(st, l, NULL, e)
                return v
            if n == 'lock':
                return locked(I.eval(e['obj'], st))
            if n == 'expired':
                return eq(locked(I.eval(e['obj'], st)), NULL)
            if n == 'swap':
                l = I.lval(e['obj'], st); m = I.lval(args[0], st)
                a, b = I.read(st, l), I.read(st, m)
                I.write(st, l, b, e); I.write(st, m, a, e)
                return ('void',)
        if '_Bit_reference' in fn:
            l = I.lval(e['obj'], st)
            if n == 'operator=':
                v = ev(0)
                I.write(st, l, v, e)
                return ('LV', l)
            return truth(I.read(st, l))
        if 'iterator' in fn:
            return iterator_method(I, e, st, n)
        if n == 'shared_from_this':
            return I.objptr(I.lval(e['obj'], st)) if e['obj']['k'] != 'this' else I.frame.this
        if fn.startswith('std::vector') or fn.startswith('std::array') or fn.startswith('std::basic_string<') or fn.startswith('std::deque') \
                or fn.startswith('std::list') or fn.startswith('std::map') or fn.startswith('std::set') or fn.startswith('std::unordered') \
                or fn.startswith('std::initializer_list'):
            r = container(I, e, st, n, fn)
            if r is not None: return r
        if 'basic_stringstream' in fn or 'ostream' in fn or 'ios' in fn or 'basic_ostringstream' in fn:
            if n == 'operator<<':
                l = I.lval(e['obj'], st)
                for a in args: I.emit('stream', st, e, to=l, val=I.eval(a, st))
                return ('LV', l)
            for a in args: I.eval(a, st)
            return ('call', n, ())
        if n == 'operator()' :
            c = I.eval(e['obj'], st)
            return call_value(I, e, st, c, [I.eval(a, st) for a in args])
        return generic(I, e, st, want_lval)

    # ---- free functions ----
    if n in ('move', 'forward', 'ref', 'cref') and args:
        return ('LV', I.lval(args[0], st))
    if n == 'make_pair' : return ('pair', ev(0), ev(1))
    if n in ('make_shared', 'make_unique'): return make_shared(I, e, st)
    if n in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
        v = ev(0)
        if n != 'dynamic_pointer_cast': return v
        return I.dyncast(noref(e['t']), v)
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(args) == 2:
        a, b = ev(0), ev(1)
        I.same_list(st, a, b)
        return I.binop(n[8:], a, b)
    if n == 'operator+' and len(args) == 2: return add(ev(0), ev(1)) if 'basic_string' not in e['t'] else ('strcat', ev(0), ev(1))
    if n == 'operator-' and len(args) == 2: return add(ev(0), ev(1), -1)
    if n == 'operator<<' and len(args) == 2:
        l = I.lval(args[0], st)
        I.emit('stream', st, e, to=l, val=I.eval(args[1], st))
        return ('LV', l)
    if n in ('min', 'max') and len(args) == 2:
        a, b = ev(0), ev(1)
        return ite(lt(b, a), b, a) if n == 'min' else ite(lt(a, b), b, a)
    if n in ('abs', 'fabs'):
        v = ev(0)
        return C(abs(v[1])) if is_num(v) else ('call', 'abs', (v,))
    if n == 'pow' and len(args) == 2:
        a, b = ev(0), ev(1)
        if is_num(b) and b[1] == 2: return mul(a, a)
        if is_num(b) and b[1] == 3: return mul(a, mul(a, a))
        return ('call', 'pow', (a, b))
    if n in ('ceil', 'floor') and len(args) == 1:
        v = ev(0)
        return C(getattr(math, n)(v[1])) if is_num(v) else ('call', n, (v,))
    if n in ('sqrt', 'ceil', 'floor', 'exp', 'log', 'sin', 'cos'): return ('call', n, tuple(ev(i) for i in range(len(args))))
    if n == 'swap':
        l, m = I.lval(args[0], st), I.lval(args[1], st)
        a, b = I.read(st, l), I.read(st, m)
        I.write(st, l, b, e); I.write(st, m, a, e)
        return ('void',)
    if n == 'begin' or n == 'cbegin': return ('addr', ('elem', I.lval(args[0], st), C(0)))
    if n == 'end' or n == 'cend':
        l = I.lval(args[0], st)
        return ('addr', ('elem', l, size(I.read(st, l))))
    if n in ('distance',):
        a, b = ev(0), ev(1)
        if b[0] == 'sfind' and a[0] == 'addr': return ('indexof', b[2], b[3])
        return add(b, a, -1)
    if n in ('next', 'prev'):
        return add(ev(0), ev(1) if len(args) > 1 and not args[1].get('def') else C(1), 1 if n == 'next' else -1)
    if n in ('back_inserter', 'inserter'):
        return ('backins', I.lval(args[0], st))
    if n == 'find':
        b, en, v = ev(0), ev(1), ev(2)
        if b[0] == 'addr' and b[1][0] == 'elem':
            loc = b[1][1]
            s = I.range_of(b, en, st)
            if s is not None and I.unroll and is_num(size(s)) and size(s)[1] <= I.unroll and is_num(b[1][2]):
                r = ('addr', ('elem', loc, add(b[1][2], size(s))))
                for j in reversed(range(size(s)[1])): r = ite(eq(index(s, C(j)), v), ('addr', ('elem', loc, add(b[1][2], C(j)))), r)
                return r
            if s is not None: return ('sfind', loc, s, v)
        return ('call', 'find', (b, en, v))
    if n == 'copy' and len(args) == 3:
        b, en, o = ev(0), ev(1), ev(2)
        s = I.range_of(b, en, st)
        if s is None: s = ('call', 'range', (b, en))
        if o[0] == 'backins':
            cur = I.read(st, o[1])
            I.emit('append', st, e, loc=o[1], seq=s, cur=cur)
            I.write(st, o[1], concat(cur, s), e, op='append')
        elif o[0] == 'addr' and o[1][0] == 'elem':
            cur = I.read(st, o[1][1])
            i = o[1][2]
            if I.bounds is not None and is_num(i) and is_num(size(s)) and is_num(size(cur)) and not 0 <= i[1] <= i[1] + size(s)[1] <= size(cur)[1]:
                I.misfit(st, 'copies %d elements to place %d of a list of %d' % (size(s)[1], i[1], size(cur)[1]))
            if i == C(0) and size(cur) == size(s): nv = s
            elif cur[0] == 'resize' and add(i, size(s)) == size(cur) and size(cur[1]) == i: nv = concat(cur[1], s)
            elif is_num(i) and elems(cur) is not None and elems(s) is not None and 0 <= i[1] and i[1] + len(elems(s)) <= len(elems(cur)):
                nv = lst(elems(cur)[:i[1]] + elems(s) + elems(cur)[i[1] + len(elems(s)):])
            else: nv = tiled(('copyinto', cur, i, s))
            I.write(st, o[1][1], nv, e, op='copy')
            return ('addr', ('elem', o[1][1], add(i, size(s))))
        return o
    if n in ('fill', 'fill_n') and len(args) == 3:
        b, x, v = ev(0), ev(1), ev(2)
        if n == 'fill' and b[0] == 'addr' and b[1][0] == 'elem':
            loc = b[1][1]
            r = I.range_of(b, x, st)
            l = elems(I.read(st, loc))
            if l is not None and r is not None and is_num(size(r)) and is_num(b[1][2]) and b[1][2][1] + size(r)[1] <= len(l):
                I.write(st, loc, lst(l[:b[1][2][1]] + (v,) * size(r)[1] + l[b[1][2][1] + size(r)[1]:]), e, op='fill')
                return ('void',)
            if I.range_of(b, x, st) is not None and b[1][2] == C(0):
                I.write(st, loc, resize(EMPTY, size(I.read(st, loc)), v), e, op='fill')
                return ('void',)
        if b[0] == 'addr': I.write(st, I.root(b[1]), ('call', n, (I.read(st, I.root(b[1])), b, x, v)), e, op='fill')
        return ('void',)
    if n in ('sort', 'reverse', 'stable_sort', 'unique', 'remove', 'count', 'binary_search', 'lower_bound', 'upper_bound', 'accumulate', 'max_element', 'min_element', 'iota',
             'set_union', 'set_intersection', 'set_difference', 'equal', 'copy_n', 'replace'):
        r = concrete(I, e, st, n)
        if r is not None: return r
    if n in ('sort', 'stable_sort', 'max_element', 'min_element') and len(args) == 3 or n == 'accumulate' and len(args) == 4 or n in ('copy_if', 'generate', 'find_if_not', 'partition', 'stable_partition'):
        r = algorithm(I, e, st, n)
        if r is not None: return r
    if n in ('sort', 'reverse', 'stable_sort') and len(args) >= 2:
        b, en = ev(0), ev(1)
        s = I.range_of(b, en, st)
        if s is not None and b[0] == 'addr': I.write(st, b[1][1], ('call', n, (s,)), e, op=n)
        elif b[0] == 'addr': I.write(st, I.root(b[1]), ('call', n, (I.read(st, I.root(b[1])), b, en)), e, op=n)
        return ('void',)
    if n in ('for_each', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'remove_if'):
        r = algorithm(I, e, st, n)
        if r is not None: return r
    if n == 'MPI_Allreduce':
        a, b = ev(0), ev(1)
        val = I.read(st, I.ptr_loc(a))
        op = ev(4) if len(args) > 4 else C(0)
        I.emit('call', st, e, name=fn, obj=NULL, args=(val,), term=('call', fn, (val,)), usr=e.get('usr'),
               reduce=(args[0].get('t', ''), args[1].get('t', ''), ev(2), ev(3), ev(5)) if len(args) > 5 else None)
        I.write(st, I.ptr_loc(b), ('allreduce', val, op), e, op='out')
        return C(0)
    if n in ('abort', 'exit', 'terminate', '_exit'):
        I.emit('abort', st, e, name=n)
        st.pc = FALSE
        return ('void',)
    return generic(I, e, st, want_lval)


def generic(I, e, st, want_lval):
    """an unmodelled library call: a function of its arguments"""
    fn = e['fn']
    pt = e.get('pt', [])
    vals = I.argvals(e, st)
    obj, objloc = None, None
    if e.get('obj') is not None:
        obj, objloc = obj_of(I, e, st)
        if objloc is not None and objloc[0] != 'deref': obj = I.read(st, objloc)
    ins, outs = [], []
    for i, v in enumerate(vals):
        t = pt[i] if i < len(pt) else ''
        if v[0] == 'REF':
            if is_mut_ref(t): outs.append((i, v[1]))
            ins.append(I.read(st, v[1]))
        elif is_mut_ptr(t) and v[0] == 'addr' and v[1][0] != 'static':
            outs.append((i, v[1]))
            ins.append(I.read(st, I.root(v[1])))
        else: ins.append(v)
    term = ('call', fn, ((obj,) if obj is not None else ()) + tuple(ins))
    I.emit('call', st, e, name=fn, obj=obj if obj is not None else NULL, args=tuple(ins), term=term, usr=e.get('usr'),
           outs=tuple(l for _, l in outs))
    for i, l in outs: I.write(st, I.root(l) if l[0] == 'elem' else l, ('out', term, i), e, op='out')
    if objloc is not None and not e.get('cm') and not e.get('smeth') and objloc[0] in ('var', 'fld', 'elem', 'tmp'):
        I.write(st, objloc, ('mut', fn, obj, tuple(ins)), e, op='mut')
    if e.get('noret'):
        st.pc = FALSE
        return ('void',)
    if noref(e['t']).replace('const ', '') == 'bool': return truth(('typed', 'bool', term))
    return term


def call_value(I, e, st, c, vals):
    if c[0] == 'lambda': return call_lambda(I, st, c, vals, e)
    if c[0] == 'fnref':
        fs = I.F.by_qn.get(c[1], [])
        if len(fs) == 1 and I.should_inline(fs[0]): return I.inline(fs[0], None, vals, st, e)
    return ('call', 'indirect', (c,) + tuple(vals))


def call_lambda(I, st, c, vals, node):
    lam = I._lams[c[1]]
    outer = c[2]
    f = {'qn': I.frame.fn['qn'], 'usr': 'lambda%d' % c[1], 'file': I.frame.fn['file'], 'line': lam['l'], 'eline': lam['l'],
         'ret': noref(lam.get('ret', '')) or 'auto', 'params': lam['p'], 'body': lam['body'], 'kind': 'free'}
    own = set()

    def collect(n):
        if isinstance(n, dict):
            if n.get('k') == 'decl':
                for d in n['d']: own.add(d['id'])
            if n.get('k') == 'rfor': own.add(n['v']['id'])
            if n.get('k') == 'try':
                for h in n['h']:
                    if 'id' in h: own.add(h['id'])
            if n.get('cvar'): own.add(n['cvar']['id'])
            for v in n.values(): collect(v)
        elif isinstance(n, list):
            for v in n: collect(v)
    collect(lam['body'])
    for p in lam['p']: own.add(p['id'])
    used = {}

    def uses(n):
        if isinstance(n, dict):
            if n.get('k') == 'var' and n['id'] not in own: used[n['id']] = outer
            for v in n.values(): uses(v)
        elif isinstance(n, list):
            for v in n: uses(v)
    uses(lam['body'])
    fr0 = next((x for x in I.frames if x.fid == outer), I.frame)
    if fr0.caps: used = {k: fr0.caps.get(k, v) for k, v in used.items()}
    I._lamcaps = used
    return I.inline(f, c[3], vals, st, node, caps=used)


class Undecided(Exception): pass


def unrolled_algorithm(I, e, st, n, f, loc, first, cnt):
    args = e['a']
    if n in ('for_each', 'transform'):
        o = I.eval(args[len(args) - 2], st) if n == 'transform' and len(args) in (4, 5) else None
        b2 = I.eval(args[2], st) if n == 'transform' and len(args) == 5 else None
        if b2 is not None and not (b2[0] == 'addr' and b2[1][0] == 'elem'): return None
        if n == 'transform' and (o is None or o[0] not in ('backins', 'addr')): return None
        for j in range(cnt):
            r = call_value(I, e, st, f, [('REF', ('elem', loc, C(first + j)))] + ([('REF', ('elem', b2[1][1], add(b2[1][2], C(j))))] if b2 is not None else []))
            if o is None: continue
            if r is not None and r[0] == 'LV': r = I.read(st, r[1])
            if o[0] == 'backins': I.write(st, o[1], append(I.read(st, o[1]), r), e, op='append')
            elif o[1][0] == 'elem': I.write(st, ('elem', o[1][1], add(o[1][2], C(j))), r, e)
            else: return None
        return ('void',)
    ref = lambda j: ('REF', ('elem', loc, C(first + j)))

    def val(x): return I.read(st, x[1]) if x is not None and x[0] == 'LV' else x

    def test(*js):
        return truth(val(call_value(I, e, st, f, [ref(j) for j in js])))
    if n in ('sort', 'stable_sort', 'max_element', 'min_element', 'partition', 'stable_partition', 'remove_if'):
        l = elems(I.read(st, loc))
        if l is None or first + cnt > len(l): return None
        seg = list(l[first:first + cnt])

        def less(i, j):
            r = test(i, j)
            if r not in (TRUE, FALSE): raise Undecided()
            return r == TRUE
        try:
            if n in ('sort', 'stable_sort'):
                import functools
                o = sorted(range(cnt), key=functools.cmp_to_key(lambda i, j: -1 if less(i, j) else 1 if less(j, i) else 0))
                if n == 'sort' and any(not less(a, b) and seg[a] != seg[b] for a, b in zip(o, o[1:])): return None       # which of equals comes first is not said
                I.write(st, loc, lst(tuple(l[:first]) + tuple(seg[i] for i in o) + tuple(l[first + cnt:])), e, op=n)
                return ('void',)
            if n in ('max_element', 'min_element'):
                b = 0
                for j in range(1, cnt):
                    if less(b, j) if n == 'max_element' else less(j, b): b = j
                return ('addr', ('elem', loc, C(first + (b if cnt else 0))))
            ps = [test(j) for j in range(cnt)]
            if any(p not in (TRUE, FALSE) for p in ps): return None
            yes = [x for x, p in zip(seg, ps) if p == TRUE]; no = [x for x, p in zip(seg, ps) if p == FALSE]
            if n == 'partition' and len(set(yes)) > 1 or n == 'partition' and len(set(no)) > 1: return None
            o, k = (no + seg[len(no):], len(no)) if n == 'remove_if' else (yes + no, len(yes))
            I.write(st, loc, lst(tuple(l[:first]) + tuple(o) + tuple(l[first + cnt:])), e, op=n)
            return ('addr', ('elem', loc, C(first + k)))
        except Undecided:
            return None
    if n == 'copy_if':
        o = I.eval(args[2], st)
        if o[0] != 'backins' and not (o[0] == 'addr' and o[1][0] == 'elem' and is_num(o[1][2])): return None
        k = 0
        for j in range(cnt):
            p = test(j)
            x = I.read(st, ('elem', loc, C(first + j)))
            if o[0] == 'backins':
                cur = I.read(st, o[1])
                I.write(st, o[1], append(cur, x) if p == TRUE else cur if p == FALSE else ite(p, append(cur, x), cur), e, op='append')
                continue
            if p not in (TRUE, FALSE): return None
            if p == TRUE:
                I.write(st, ('elem', o[1][1], C(o[1][2][1] + k)), x, e)
                k += 1
        return o if o[0] == 'backins' else ('addr', ('elem', o[1][1], C(o[1][2][1] + k)))
    if n == 'generate':
        for j in range(cnt): I.write(st, ('elem', loc, C(first + j)), val(call_value(I, e, st, f, [])), e)
        return ('void',)
    if n == 'accumulate':
        t = I.eval(args[2], st)
        for j in range(cnt): t = val(call_value(I, e, st, f, [t, ref(j)]))
        return t
    ps = [test(j) for j in range(cnt)]
    if n == 'find_if_not': ps = [B_not(p) for p in ps]
    if n == 'any_of': return B_or(*ps) if ps else FALSE
    if n == 'all_of': return B_and(*ps) if ps else TRUE
    if n == 'none_of': return B_not(B_or(*ps)) if ps else TRUE
    if n == 'count_if':
        r = C(0)
        for p in ps: r = add(r, ite(p, C(1), C(0)))
        return r
    r = ('addr', ('elem', loc, C(first + cnt)))
    for j in reversed(range(cnt)): r = ite(ps[j], ('addr', ('elem', loc, C(first + j))), r)
    return r


def concrete(I, e, st, n):
    """algorithms on lists whose elements are known numbers"""
    args = e['a']
    if not I.unroll: return None
    try: vs = [I.eval(a, st) for a in args]
    except Exception: return None

    def rng(b, en):
        if b[0] != 'addr' or b[1][0] != 'elem' or en[0] != 'addr' or en[1][0] != 'elem' or b[1][1] != en[1][1]:
            I.range_of(b, en, st)
            return None
        if not (is_num(b[1][2]) and is_num(en[1][2])): return None
        l = elems(I.read(st, b[1][1]))
        if l is None: return None
        i, j = b[1][2][1], en[1][2][1]
        if not (0 <= i <= j <= len(l)): return None
        return b[1][1], i, j, l

    def put(loc, l): I.write(st, loc, lst(tuple(l)), e, op=n)

    def out(o, l):
        if o[0] == 'backins':
            for x in l: I.write(st, o[1], append(I.read(st, o[1]), x), e, op='append')
            return o
        if o[0] == 'addr' and o[1][0] == 'elem' and is_num(o[1][2]):
            for k, x in enumerate(l): I.write(st, ('elem', o[1][1], C(o[1][2][1] + k)), x, e)
            return ('addr', ('elem', o[1][1], C(o[1][2][1] + len(l))))
        return None
    if n == 'copy_n':
        if vs[0][0] != 'addr' or vs[0][1][0] != 'elem' or not is_num(vs[1]): return None
        r = rng(vs[0], ('addr', ('elem', vs[0][1][1], add(vs[0][1][2], vs[1]))))
        return out(vs[2], r[3][r[1]:r[2]]) if r else None
    r = rng(vs[0], vs[1])
    if r is None: return None
    loc, i, j, l = r
    l = list(l)
    seg = l[i:j]
    at = lambda k: ('addr', ('elem', loc, C(k)))
    if n == 'count' and len(vs) == 3:
        t = C(0)
        for x in seg: t = add(t, ite(eq(x, vs[2]), C(1), C(0)))
        return t
    if n == 'replace' and len(vs) == 4:
        put(loc, l[:i] + [ite(eq(x, vs[2]), vs[3], x) for x in seg] + l[j:])
        return ('void',)
    if n == 'reverse': put(loc, l[:i] + seg[::-1] + l[j:]); return ('void',)
    if n == 'accumulate' and len(vs) == 3:
        t = vs[2]
        for x in seg: t = add(t, x)
        return t
    if n == 'iota' and is_num(vs[2]): put(loc, l[:i] + [C(vs[2][1] + k) for k in range(j - i)] + l[j:]); return ('void',)
    if not all(is_num(x) for x in seg): return None
    key = lambda x: x[1]
    if n in ('sort', 'stable_sort') and len(vs) == 2: put(loc, l[:i] + sorted(seg, key=key) + l[j:]); return ('void',)
    if n == 'unique' and len(vs) == 2:
        o = []
        for x in seg:
            if not o or o[-1] != x: o.append(x)
        put(loc, l[:i] + o + seg[len(o):] + l[j:])
        return at(i + len(o))
    if n in ('remove', 'count', 'binary_search', 'lower_bound', 'upper_bound') and len(vs) == 3:
        if not is_num(vs[2]): return None
        if n == 'count': return C(sum(x == vs[2] for x in seg))
        if n == 'remove':
            o = [x for x in seg if x != vs[2]]
            put(loc, l[:i] + o + seg[len(o):] + l[j:])
            return at(i + len(o))
        if [key(x) for x in seg] != sorted(key(x) for x in seg): return None
        if n == 'binary_search': return TRUE if vs[2] in seg else FALSE
        return at(i + sum(key(x) < vs[2][1] if n == 'lower_bound' else key(x) <= vs[2][1] for x in seg))
    if n in ('max_element', 'min_element') and len(vs) == 2:
        if not seg: return at(j)
        m = (max if n == 'max_element' else min)(seg, key=key)
        return at(i + seg.index(m))
    if n == 'equal' and len(vs) == 3 and vs[2][0] == 'addr' and vs[2][1][0] == 'elem' and is_num(vs[2][1][2]):
        r2 = rng(vs[2], ('addr', ('elem', vs[2][1][1], C(vs[2][1][2][1] + j - i))))
        if r2 is None: return None
        return TRUE if list(r2[3][r2[1]:r2[2]]) == seg else FALSE
    if n.startswith('set_') and len(vs) == 5:
        r2 = rng(vs[2], vs[3])
        if r2 is None: return None
        s2 = list(r2[3][r2[1]:r2[2]])
        if not all(is_num(x) for x in s2) or seg != sorted(seg, key=key) or s2 != sorted(s2, key=key): return None
        if n == 'set_union': o = sorted(seg + [x for x in s2 if x not in seg], key=key)
        elif n == 'set_intersection': o = [x for x in seg if x in s2]
        else: o = [x for x in seg if x not in s2]
        return out(vs[4], o)
    return None


def algorithm(I, e, st, n):
    args = e['a']
    b, en = I.eval(args[0], st), I.eval(args[1], st)
    s = I.range_of(b, en, st)
    if s is None or b[0] != 'addr': return None
    loc = b[1][1]
    f = I.eval(args[-1], st)
    if f[0] not in ('lambda', 'fnref'): return None
    if n not in ('for_each', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'remove_if') and not I.unroll: return None
    if I.unroll and is_num(size(s)) and size(s)[1] <= I.unroll and b[1][0] == 'elem' and is_num(b[1][2]):
        return unrolled_algorithm(I, e, st, n, f, loc, b[1][2][1], size(s)[1])
    if n not in ('for_each', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'remove_if') or n == 'transform' and len(args) == 5: return None
    if n in ('for_each', 'transform'):
        I.lid += 1
        it = ('iter', I.lid)
        el = ('elem', loc, it)
        out = I.eval(args[2], st) if n == 'transform' and len(args) == 4 else None
        fake = {'k': 'algo', 'l': e['l'], 'algo': (loc, s, f, n, out)}
        return I.algo_loop(fake, st, e)
    I.lid += 1
    it = ('iter', I.lid)
    s2 = st.copy()
    I.mute += 1
    p = call_value(I, e, s2, f, [('REF', ('elem', loc, it))])
    I.mute -= 1
    if n in ('any_of',): return atom(('flag', n, s, alpha(p)))
    if n == 'none_of': return B_not(atom(('flag', 'any_of', s, alpha(p))))
    if n == 'all_of': return atom(('flag', n, s, alpha(p)))
    return ('call', n, (s, alpha(p) if p else C(0)))


def iterator_method(I, e, st, n):
    args = e['a']
    if n in ('operator*',):
        p = I.eval(e['obj'], st)
        I.deref(p, st, e)
        return ('LV', I.ptr_loc(p))
    if n == 'operator->': return I.eval(e['obj'], st)
    if n == 'operator[]': return ('LV', I.ptr_elem(I.eval(e['obj'], st), I.eval(args[0], st)))
    if n in ('operator++', 'operator--'):
        l = I.lval(e['obj'], st)
        old = I.read(st, l)
        new = add(old, C(1 if n == 'operator++' else -1))
        I.write(st, l, new, e, op='+=')
        return old if args else ('LV', l)
    if n in ('operator+', 'operator-'):
        return add(I.eval(e['obj'], st), I.eval(args[0], st), 1 if n == 'operator+' else -1)
    if n in ('operator+=', 'operator-='):
        l = I.lval(e['obj'], st)
        I.write(st, l, add(I.read(st, l), I.eval(args[0], st), 1 if n == 'operator+=' else -1), e, op='+=')
        return ('LV', l)
    if n == 'base': return I.eval(e['obj'], st)
    if n in ('operator==', 'operator!='):
        a, b = I.eval(e['obj'], st), I.eval(args[0], st)
        I.same_list(st, a, b)
        return I.binop(n[8:], a, b)
    if n == 'operator=':
        l = I.lval(e['obj'], st)
        I.write(st, l, I.eval(args[0], st), e)
        return ('LV', l)
    return generic(I, e, st, False)


def container(I, e, st, n, fn):
    args = e['a']
    p, l = obj_of(I, e, st)
    cur = lambda: I.read(st, l)
    ismap = fn.startswith('std::map') or fn.startswith('std::unordered_map')
    isset = fn.startswith('std::set') or fn.startswith('std::unordered_set')
    if n in ('size', 'length'): return C(len(cur()[1])) if cur()[0] == 'c' and isinstance(cur()[1], str) else size(cur())
    if n == 'empty': return eq(size(cur()), C(0))
    if fn.startswith('std::basic_string') and I.unroll and n in ('rfind', 'find', 'substr', 'compare', 'find_first_of', 'find_last_of', 'append'):
        r = string_op(I, st, n, cur(), [I.eval(a, st) for a in args if not a.get('def')])
        if r is not None: return r
    if ismap and I.unroll:
        r = concrete_map(I, e, st, n, l, cur())
        if r is not None: return r
    if n in ('operator[]', 'at') and len(args) == 1:
        i = I.eval(args[0], st)
        I.emit('index', st, e, loc=l, i=i, cur=cur())
        return ('LV', ('key' if ismap else 'elem', l, i))
    if n == 'front': return ('LV', ('elem', l, C(0)))
    if n == 'back': return ('LV', ('elem', l, add(size(cur()), C(-1))))
    if n in ('begin', 'cbegin', 'data', 'c_str') :
        if fn.startswith('std::basic_string') and n == 'c_str': return cur()
        return ('addr', ('elem', l, C(0)))
    if n in ('end', 'cend'): return ('addr', ('elem', l, size(cur())))
    if n in ('reserve', 'shrink_to_fit'):
        for a in args: I.eval(a, st)
        return ('void',)
    if n in ('push_back', 'emplace_back') and len(args) == 1:
        v = I.eval(args[0], st)
        c = cur()
        I.emit('append', st, e, loc=l, val=v, cur=c)
        I.write(st, l, append(c, v), e, op='append')
        return ('void',)
    if n == 'emplace_back':
        v = ('call', 'emplace', tuple(I.eval(a, st) for a in args))
        c = cur()
        I.emit('append', st, e, loc=l, val=v, cur=c)
        I.write(st, l, append(c, v), e, op='append')
        return ('void',)
    if n == 'pop_back':
        I.write(st, l, slice_(cur(), C(0), add(size(cur()), C(-1))), e, op='pop')
        return ('void',)
    if n == 'clear':
        I.write(st, l, EMPTY if not fn.startswith('std::basic_string') else C(''), e, op='clear')
        return ('void',)
    if n == 'resize':
        nn = I.eval(args[0], st)
        real = [a for a in args[1:] if not a.get('def')]
        v = I.eval(real[0], st) if real else I.zero_elem(noref(e['obj']['t']).replace('const ', ''))
        I.write(st, l, resize(cur(), nn, v), e, op='resize')
        return ('void',)
    if n == 'assign':
        if len(args) == 2:
            a, b = I.eval(args[0], st), I.eval(args[1], st)
            s = I.range_of(a, b, st)
            v = s if s is not None else (resize(EMPTY, a, b) if isint(noref(args[0]['t'])) else ('call', 'assign', (a, b)))
        else: v = I.eval(args[0], st)
        I.write(st, l, v, e, op='=')
        return ('void',)
    if n == 'operator=':
        v = I.eval(args[0], st)
        I.write(st, l, v, e)
        return ('LV', l)
    if n == 'operator+=':
        v = I.eval(args[0], st)
        I.write(st, l, ('strcat', cur(), v), e, op='+=')
        return ('LV', l)
    if n == 'swap':
        m = I.lval(args[0], st)
        a, b = I.read(st, l), I.read(st, m)
        I.write(st, l, b, e); I.write(st, m, a, e)
        return ('void',)
    if n == 'insert' and not ismap and not isset:
        pos = I.eval(args[0], st)
        c = cur()
        if pos[0] == 'addr' and pos[1][0] == 'elem' and I.other_list(pos[1][1], l): I.misfit(st, 'inserts into a list at a position of another list')
        atend = pos == ('addr', ('elem', l, size(c)))
        if len(args) >= 3:
            a, b = I.eval(args[1], st), I.eval(args[2], st)
            s = I.range_of(a, b, st)
            if s is None:
                s = resize(EMPTY, a, b) if isint(noref(args[1]['t'])) else ('call', 'range', (a, b))
            if atend:
                I.emit('append', st, e, loc=l, seq=s, cur=c)
                I.write(st, l, concat(c, s), e, op='append')
            else:
                I.write(st, l, insert_at(I, l, c, pos, s), e, op='insert')
        else:
            v = I.eval(args[1], st)
            if v[0] == 'list' and args[1]['k'] == 'list':
                I.write(st, l, concat(c, v) if atend else insert_at(I, l, c, pos, v), e, op='insert')
            elif atend:
                I.emit('append', st, e, loc=l, val=v, cur=c)
                I.write(st, l, append(c, v), e, op='append')
            else:
                I.write(st, l, insert_at(I, l, c, pos, ('list', (v,))), e, op='insert')
        return pos
    if n == 'erase' and not ismap:
        ps = [I.eval(a, st) for a in args]
        c = cur()
        idx = []
        for p in ps:
            if p[0] == 'addr' and p[1][0] == 'elem' and p[1][1] == l: idx.append(p[1][2])
            elif p[0] == 'sfind': idx.append(('indexof', p[2], p[3]))
            else:
                if p[0] == 'addr' and p[1][0] == 'elem' and I.other_list(p[1][1], l): I.misfit(st, 'erases from a list at a position of another list')
                idx.append(p)
        I.write(st, l, erase(c, *idx), e, op='erase')
        return ps[0]
    if ismap or isset:
        if n == 'find': return ('mfind', l, cur(), I.eval(args[0], st))
        if n == 'count': return num(atom(('contains', cur(), I.eval(args[0], st))))
        if n in ('insert', 'emplace'):
            v = I.eval(args[0], st) if len(args) == 1 else ('pair', I.eval(args[0], st), I.eval(args[1], st))
            c = cur()
            I.emit('append', st, e, loc=l, val=v, cur=c)
            I.write(st, l, ('minsert', c, v), e, op='append')
            return ('call', 'inserted', (c, v))
        if n == 'erase':
            I.write(st, l, ('merase', cur(), I.eval(args[0], st)), e, op='erase')
            return ('void',)
    if n in ('rfind', 'find', 'substr', 'compare', 'find_first_of', 'find_last_of'):
        return ('call', 'string::' + n, (cur(),) + tuple(I.eval(a, st) for a in args))
    return None


NPOS = C(-1)


def string_op(I, st, n, s, vs):
    """operations on strings that are known"""
    if s[0] != 'c' or not isinstance(s[1], str) or not all(v[0] == 'c' for v in vs): return None
    a = [v[1] for v in vs]
    if n in ('find', 'rfind') and isinstance(a[0], str) and len(a) == 1:
        r = s[1].find(a[0]) if n == 'find' else s[1].rfind(a[0])
        return C(r) if r >= 0 else NPOS
    if n == 'substr' and a and all(isinstance(x, int) for x in a) and 0 <= a[0] <= len(s[1]):
        return C(s[1][a[0]:] if len(a) < 2 else s[1][a[0]:a[0] + a[1]] if a[1] >= 0 else s[1][a[0]:])
    if n == 'compare' and len(a) == 3 and isinstance(a[2], str) and isinstance(a[0], int) and isinstance(a[1], int) and 0 <= a[0] <= len(s[1]):
        t = s[1][a[0]:] if a[1] < 0 else s[1][a[0]:a[0] + a[1]]
        return C((t > a[2]) - (t < a[2]))
    if n == 'compare' and len(a) == 1 and isinstance(a[0], str): return C((s[1] > a[0]) - (s[1] < a[0]))
    return None


def map_items(I, c):
    """[(key, element)] of a map that is known"""
    es = elems(c)
    if es is None: return None
    out = []
    for x in es:
        b = x
        while b[0] == 'obj': b = b[1]
        if not (b[0] == 'pair' or b[0] == 'call' and b[1] == 'make_pair'): return None
        k = I.fieldof(b, '::first')
        if k[0] != 'c': return None
        out.append((k, x))
    if len(set(k for k, x in out)) < len(out):
        seen, o2 = set(), []
        for k, x in out:
            if k not in seen: seen.add(k); o2.append((k, x))
        out = o2
    if len(set(type(k[1]) for k, x in out)) > 1: return None
    return sorted(out, key=lambda y: y[0][1])


def concrete_map(I, e, st, n, l, c):
    """operations on maps with known keys: a sorted list of pairs"""
    args = [a for a in e['a'] if not a.get('def')]
    if n not in ('find', 'count', 'operator[]', 'at', 'insert', 'emplace', 'erase'): return None
    it = map_items(I, c)
    if it is None or not args: return None
    vs = None
    if len(args) == 1:
        v = I.eval(args[0], st)
        k = v
        if n in ('insert', 'emplace'):
            b = v
            while b[0] == 'obj': b = b[1]
            if not (b[0] == 'pair' or b[0] == 'call' and b[1] == 'make_pair'): return None
            k = I.fieldof(b, '::first')
    elif len(args) == 2 and n == 'emplace':
        k = I.eval(args[0], st)
        v = ('pair', k, I.eval(args[1], st))
    else: return None
    if n == 'erase' and k[0] == 'addr' and k[1][0] == 'elem' and k[1][1] == l and is_num(k[1][2]) and 0 <= k[1][2][1] < len(it): k = it[k[1][2][1]][0]
    if k[0] != 'c' or it and type(it[0][0][1]) != type(k[1]): return None
    i = next((j for j, x in enumerate(it) if x[0] == k), None)
    have = [x for _, x in it]
    mklist = lambda xs: ('list', tuple(xs)) if xs else EMPTY
    if n == 'count': return C(0 if i is None else 1)
    if n == 'find':
        if mk(mklist(have)) != c: I.write(st, l, mklist(have), e, op='sort', event=False)
        return ('addr', ('elem', l, C(len(it) if i is None else i)))
    if n == 'erase':
        if i is not None: I.write(st, l, mklist(have[:i] + have[i + 1:]), e, op='erase')
        return C(0 if i is None else 1)
    if n == 'at' and i is None:
        I.emit('throw', st, e, type='std::out_of_range', val=None, eline=e.get('l'))
        st.pc = FALSE
        return ('void',)
    if i is None:
        i = len([1 for x in it if x[0][1] < k[1]])
        if n == 'operator[]': v = ('pair', k, default_of(I, e))
        I.write(st, l, mklist(have[:i] + [v] + have[i:]), e, op='append')
        new = True
    else:
        new = False
        if mk(mklist(have)) != c: I.write(st, l, mklist(have), e, op='sort', event=False)
    if n in ('insert', 'emplace'): return ('pair', ('addr', ('elem', l, C(i))), C(int(new)))
    return ('LV', I.fld(('addr', ('elem', l, C(i))), 'std::pair::second', st))


def default_of(I, e):
    t = noref(e.get('t', ''))
    from .engine import CONTAINERS, SCALAR, SMART
    if CONTAINERS.match(t): return I.default_value(t)
    if SCALAR.match(t): return C(0)
    if SMART.match(t) or t.endswith('*'): return NULL
    return ('dflt', t)


def insert_at(I, l, c, pos, s):
    if pos[0] == 'addr' and pos[1][0] == 'elem' and pos[1][1] == l:
        if pos[1][2] == C(0): return concat(s, c)
        return insertat(c, pos[1][2], s)
    return ('insertat', c, pos, s)


def make_shared(I, e, st):
    import re
    t = noref(e['t'])
    m = re.match(r'^std::(?:shared|unique)_ptr<(.*?)(?:, std::default_delete<.*>)?>$', t)
    ct = m.group(1).strip() if m else t
    bare = ct.replace('const ', '')
    I.nid += 1
    p = ('new', I.nid, bare)
    I.emit('new', st, e, ptr=p, arr=False, n=None, at=bare, shared=True)
    cands = [f for f in I.F.funcs.values() if f.get('clst') == bare and f['kind'] in ('ctor', 'copyctor', 'movector')]
    best = None
    for f in cands:
        na = len(e['a'])
        ps = f['params']
        if len(ps) < na or any('dflt' not in q for q in ps[na:]): continue
        sc = 0
        ok = True
        for q, a in zip(ps, e['a']):
            qt, at = noref(q['t']).replace('const ', ''), noref(a['t']).replace('const ', '')
            if qt == at: sc += 3
            elif isint(qt) and isint(at): sc += 1
            elif 'double' in qt and (isint(at) or 'double' in at): sc += 1
            elif qt.endswith('*') and (at.endswith('*') or a['k'] == 'null'): sc += 1
            elif SMART.match(qt) and SMART.match(at): sc += 2
            elif 'basic_string' in qt and ('char' in at): sc += 2
            elif CONTAINERS.match(qt) and a['k'] in ('list',): sc += 1
            else: sc -= 2
        if best is None or sc > best[0]: best = (sc, f)
    if bare.startswith('std::') or not best:
        vals = [I.eval(a, st) for a in e['a']]
        fake = None
        if CONTAINERS.match(bare):
            if not vals: v = EMPTY
            elif len(vals) == 1 and isint(noref(e['a'][0]['t'])): v = resize(EMPTY, vals[0], I.zero_elem(bare))
            elif len(vals) == 2:
                v = I.range_of(vals[0], vals[1], st) or (resize(EMPTY, vals[0], vals[1]) if isint(noref(e['a'][0]['t'])) else ('call', 'range', tuple(vals)))
            else: v = vals[0]
            st.m[('deref', p)] = v
        else:
            I.emit('call', st, e, name='ctor ' + bare, obj=p, args=tuple(vals), ctor=True)
        return p
    f = best[1]
    pt = [q['t'] for q in f['params']]
    e2 = dict(e, pt=pt)
    vals = I.argvals(e2, st, f)
    if I.should_inline(f):
        I.emit('call', st, e, name=f['qn'], obj=p, args=tuple(I.plain(v, st) for v in vals), usr=f['usr'], ctor=True, inlined=True)
        I.inline(f, p, vals, st, e)
    else:
        I.emit('call', st, e, name=f['qn'], obj=p, args=tuple(I.plain(v, st) for v in vals), usr=f['usr'], ctor=True)
    return p
