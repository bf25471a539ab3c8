"""C09: blocks of a regular grid."""
import itertools
from .objs import *

RULE = ('block_partition_regular_mesh is evaluated over grids of representative sizes in one, two and three dimensions and every number of blocks asked for (domain limits and previous contents of the results free), '
        'and the blocks it gives are judged: as many as asked, none empty, disjoint, together the whole grid, zero in directions that do not exist; requests that cannot be met are refused without touching the results.')
FN = 'Jali::block_partition_regular_mesh'


def sizes(thorough):
    one = [1, 2, 3, 4, 5, 6, 7, 8, 12] + ([9, 10, 11, 13, 16] if thorough else [])
    two = [(1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (1, 6), (5, 4)] + ([(6, 4), (4, 6), (7, 3), (5, 5), (8, 2)] if thorough else [])
    tri = [(1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 3, 1), (1, 1, 7), (2, 1, 4)] + ([(3, 3, 3), (4, 2, 3), (2, 4, 4), (5, 3, 2)] if thorough else [])
    return [(x,) for x in one] + two + tri


def check():
    ck = Check('C09', RULE)
    F = ck.load('mesh')
    ck.bounds()
    fs = [f for f in F.by_qn.get(FN, []) if f.get('body')]
    ck.need(len(fs), 1, FN)
    jobs = []
    for n in sizes(ck.thorough):
        tot = 1
        for x in n: tot *= x
        for k in range(1, tot + 1):
            if tot > 12 and k > 9 and k % 5 and k < tot - 1 and not ck.thorough: continue
            jobs.append((n, k))
        jobs += [(n, 0), (n, -1), (n, tot + 1), (n, 3 * tot)]
    # many blocks
    jobs += [((40,), k) for k in (17, 20, 33, 40)] + [((9, 6), k) for k in (17, 23, 37, 50)] + [((5, 4, 3), k) for k in (18, 33, 59)] + [((4, 4, 4), k) for k in (16, 21, 48)] + [((100, 1, 1), 10), ((1, 64), 64), ((1, 1, 33), 19)]
    ck.each(jobs, lambda sub, j: blocks(sub, F, fs[0], *j), lambda j: '%s cells in %d blocks' % j)
    return ck.finish()


def blocks(ck, F, f, n, k):
    what = '%s cells in %d blocks' % ('x'.join(map(str, n)), k)
    tot = 1
    for x in n: tot *= x
    h = Heap(F, unroll=2 * tot + 40)
    N, DOM, S, B = (mk(('sym', x)) for x in ('NUM', 'DOMAIN', 'STARTS', 'COUNTS'))
    h.m[N] = lst_of(list(n))
    old = lst_of([9])
    h.m[mk(('deref', S))] = h.m[mk(('deref', B))] = old
    p = [x['n'] for x in f['params']]
    r = h.call(f, this=None, params=dict(zip(p, [C(len(n)), mk(('addr', mk(('elem', DOM, C(0))))), mk(('addr', mk(('elem', N, C(0))))), C(k), S, B])))
    st, nb = (elems(h.m.get(mk(('deref', x)))) for x in (S, B))
    where = '%s:%d' % (f['file'], f['line']) if 'file' in f else FN
    if h.pc != TRUE: return ck.ob(what + ': evaluated', None, where)
    ok = 1 <= k <= tot
    ck.ob(what + ': success is reported right', r[1] == int(ok) if r is not None and is_num(r) else None, where, 'result %s' % short(r), key='result')
    if not ok: return
    if st is None or nb is None: return ck.ob(what + ': the blocks are known', None, where)
    st, nb = [ints(x) for x in st], [ints(x) for x in nb]
    if any(x is None or x is False for x in st + nb): return ck.ob(what + ': the blocks are numbers', False if False in st + nb else None, where)
    ck.ob(what + ': as many as asked', len(st) == len(nb) == k, where, '%d starts, %d counts' % (len(st), len(nb)), key='number')
    ck.ob(what + ': three numbers each, zero in other directions', all(len(x) == 3 and not any(x[len(n):]) for x in st + nb), where, key='directions')
    if len(st) != len(nb): return
    seen = {}
    for i, (a, c) in enumerate(zip(st, nb)):
        for x in itertools.product(*[range(a[d], a[d] + c[d]) for d in range(len(n))]): seen.setdefault(x, []).append(i)
    ck.ob(what + ': none is empty', all(min(c[:len(n)]) > 0 for c in nb), where, key='empty')
    want = set(itertools.product(*[range(x) for x in n]))
    ck.ob(what + ': each cell is in a block', want <= set(seen), where, key='covers')
    ck.ob(what + ': no block leaves the grid', set(seen) <= want, where, key='inside')
    ck.ob(what + ': no cell is in two blocks', all(len(v) == 1 for v in seen.values()), where, key='overlap')
