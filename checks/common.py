"""Helpers shared by the checks."""
from jv import facts
from jv.facts import AnalysisError
from jv.terms import *
from jv.engine import Interp, is_ref, is_mut_ref, isint, St, noref
from jv.report import Check

THIS = ('sym', 'this')
KINDS = ('node', 'edge', 'face', 'side', 'wedge', 'corner', 'cell')
EKIND = {'node': 'NODE', 'edge': 'EDGE', 'face': 'FACE', 'side': 'SIDE', 'wedge': 'WEDGE', 'corner': 'CORNER', 'cell': 'CELL'}
TYPES = ('PARALLEL_OWNED', 'PARALLEL_GHOST', 'BOUNDARY_GHOST', 'ALL')


def targ(t): return 'Jali::Entity_type::' + t


def short(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + '…'


def run(F, f, opaque=None, depth=6, this=THIS, params=None, inline=None, deref=False, assume=None, hooks=None, unroll=0):
    I = Interp(F, inline=inline, opaque=opaque, max_depth=depth)
    I.deref_events = deref
    I.unroll = unroll
    if assume: I.assume.update(assume)
    if hooks: I.hooks.update(hooks)
    I.run(f, this=this, params=params)
    return I


def loc_of(t):
    """location a reference-valued result designates"""
    if t is None: return None
    if t[0] == 'addr': return t[1]
    return None


def accessors(F, cls='Jali::Mesh', kinds=KINDS):
    """(kind, type) -> (location of the id list, function)"""
    out = {}
    for k in kinds:
        for f in F.by_qn.get('%s::%ss' % (cls, k), []):
            ta = f.get('targs') or []
            for t in TYPES:
                if ta == [targ(t)]:
                    out[(k, t)] = (loc_of(run(F, f).result), f)
    return out


def at(f): return '%s:%d' % (f['file'], f['line'])


def fldname(loc):
    return loc[2].split('::')[-1] if loc is not None and loc[0] == 'fld' else short(loc) if loc is not None else '?'


# ---- call graph over the syntax trees -----------------------------------------
def nodes(n):
    """all tree nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)


def callers(F):
    """usr -> set of usrs whose body calls it"""
    if hasattr(F, '_callers'): return F._callers
    out = {}
    for u, f in F.funcs.items():
        for n in nodes([f.get('body'), f.get('inits')]):
            if 'usr' in n and n.get('k') in ('call', 'ctor', 'mcall', 'opcall', 'new') or ('fn' in n and 'usr' in n):
                out.setdefault(n['usr'], set()).add(u)
    F._callers = out
    return out


def mentions(f):
    """names of the fields a function's body mentions"""
    r = f.get('_mentions')
    if r is None:
        r = f['_mentions'] = set(n['f'] for n in nodes([f.get('body'), f.get('inits')]) if isinstance(n.get('f'), str))
    return r


# ---- comparing values case by case ----------------------------------------------
def top_conds(t, out, d=0):
    if d > 6: return
    if t[0] == 'ite':
        out.append(t[1]); top_conds(t[2], out, d + 1); top_conds(t[3], out, d + 1)
    elif t[0] == 'concat':
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str): top_conds(x, out, d + 1)
            elif isinstance(x, tuple):
                for y in x: top_conds(y, out, d + 1)


def fix(t, assume):
    """t under an assumption, conditions below concatenations included"""
    t = simp(t, assume)
    if t[0] == 'ite' and assume not in (TRUE, FALSE):
        return ite(B_constrain(t[1], assume), fix(t[2], assume), fix(t[3], assume))
    if t[0] == 'concat':
        parts = t[1] if len(t) == 2 else t[1:]
        r = None
        for p in parts:
            p = fix(p, assume)
            r = p if r is None else concat(r, p)
        return r
    if t[0] == 'append': return append(fix(t[1], assume), fix(t[2], assume))
    return t


def same_cases(a, b, limit=6):
    if same(a, b): return True
    cs = []
    top_conds(a, cs); top_conds(b, cs)
    ats = []
    for c in cs:
        for x in b_atoms(c):
            if x not in ats: ats.append(x)
    if not ats or len(ats) > limit: return False

    def rec(i, asm):
        if asm == FALSE: return True
        if i == len(ats): return same(fix(a, asm), fix(b, asm))
        t = atom(ats[i])
        return rec(i + 1, B_and(asm, t)) and rec(i + 1, B_and(asm, B_not(t)))
    return rec(0, TRUE)


def public(F, f):
    d = F.decls.get(f['usr'])
    return d is None or d[1].get('access', 'public') == 'public'
