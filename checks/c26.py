"""C26: areas, volumes, centroids and normals of polygons, polyhedra and segments."""
import random
from fractions import Fraction
from .objs import *
from jv import terms
from . import alg, c25
from .c18 import pts_list, env_pts, SOLIDS, G

RULE = ('The area, volume, centroid and normal computed for polygons, polyhedra and segments are derived from the source as functions of free corner coordinates, for every number of corners and faces '
        'considered, and compared with the integral formulas (sums over the triangles or tetrahedra of the boundary) by identity testing: agreement of the two functions, exactly, on a family of corner positions '
        'that fixes them, in every choice of first corner and both orientations.')
PT = c25.PT
D, X = c25.D, c25.X
CEN, NRM = mk(('new', 950, PT)), mk(('new', 951, PT))
OUT = ('sym', 'OUT')


def newpoint(h, o, d):
    h.m[mk(('fld', o, D))] = C(d)
    h.m[mk(('fld', o, X))] = lst(tuple(mk(('sym', 'before%d' % i)) for i in range(3)))


def got(h, o, d):
    dd, x = h.m.get(mk(('fld', o, D))), h.m.get(mk(('fld', o, X)))
    if dd is None or x is None or not is_num(dd): return None
    return [index(x, C(i)) for i in range(dd[1])]


def params(f, **kw):
    """by type and order: the lists, the numbers, then the places for results"""
    return dict(zip([p['n'] for p in f['params']], kw['args']))


def check():
    ck = Check('C26', RULE)
    ck.bounds()
    F = ck.load('geometry')
    terms.EXPAND[0] = 2
    polygons(ck, F)
    polyhedra(ck, F)
    segments(ck, F)
    return ck.finish()


def vals(ts, env):
    return [alg.value(t, env) for t in ts]


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def compare(ck, f, terms, cases, what, key):
    """terms: {name: [term]}; cases: (env, {name: [wanted]}, text)"""
    bad = und = None
    n = 0
    if any(t is None for t in terms.values()): und = True
    else:
        for env, want, text in cases:
            n += 1
            try:
                for k, w in want.items():
                    g = vals(terms[k], env)
                    if len(g) != len(w) or not all(near(a, b) for a, b in zip(g, w)):
                        bad = bad or '%s of %s is %s and not %s' % (k, text, ', '.join('%.6g' % float(x) for x in g), ', '.join('%.6g' % float(x) for x in w))
            except alg.Undecided: und = True
    ck.count('identities', n)
    ck.ob(what, False if bad else None if und else True, at(f), bad or '', key)


# rational orthonormal frames
FRAMES = [((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((Fraction(1, 3), Fraction(2, 3), Fraction(2, 3)), (Fraction(2, 3), Fraction(1, 3), Fraction(-2, 3))),
          ((Fraction(2, 7), Fraction(3, 7), Fraction(6, 7)), (Fraction(3, 7), Fraction(-6, 7), Fraction(2, 7)))]
FLAT = [[(0, 0), (4, 0), (0, 3)], [(-2, 1), (5, -1), (1, 7)], [(0, 0), (4, 0), (4, 4), (0, 4)], [(-1, 0), (3, -2), (5, 3), (0, 4)], [(10, 10), (12, 9), (15, 14), (9, 13)],
        [(0, 0), (12, 0), (5, 5), (0, 12)], [(0, 0), (4, 0), (5, 3), (2, 6), (-1, 3)], [(1, 1), (4, 0), (8, 3), (6, 6), (2, 5)], [(0, 0), (2, -1), (5, 0), (6, 3), (3, 5), (-1, 3)],
        [(9, 0), (8, 5), (4, 9), (-1, 9), (-6, 7), (-9, 2), (-8, -4), (-3, -9), (5, -8)],
        [(12, 0), (11, 5), (8, 9), (3, 12), (-2, 12), (-8, 9), (-11, 4), (-12, 0), (-11, -5), (-8, -9), (-3, -12), (2, -12), (7, -10), (11, -5)]]


def flat_area(p):
    n = len(p)
    return Fraction(sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n)), 2)


def flat_centroid(p):
    n, a = len(p), flat_area(p)
    cr = [p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n)]
    return [Fraction(sum((p[i][k] + p[(i + 1) % n][k]) * cr[i] for i in range(n)), 6) / a for k in (0, 1)]


def cross(u, v): return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def polygons(ck, F):
    f = F.fn(G + 'polygon_get_area_centroid_normal')
    for d in (2, 3):
        for n in (3, 4, 5, 6, 9, 14):
            h = Heap(F, depth=10, unroll=32)
            h.m[OUT] = mk(('sym', 'garbage'))
            newpoint(h, CEN, d)
            newpoint(h, NRM, d)
            h.call(f, None, params(f, args=[pts_list(n, d), ('addr', OUT), CEN, NRM]))
            A, c, nr = h.m.get(OUT), got(h, CEN, d), got(h, NRM, d)
            if d == 2 and nr is not None: nr = nr[:1]
            plain, turned, bent = [], [], []
            for q in FLAT:
                if len(q) != n: continue
                for k in range(0, n, 1 if n < 8 else 3):
                    P = q[k:] + q[:k]
                    a, cc = flat_area(P), flat_centroid(P)
                    if d == 2:
                        plain.append((env_pts(P), {'area': [a], 'centroid': cc, 'normal': [a]}, 'the polygon %s' % P))
                        if n > 3: turned.append((env_pts(P[::-1]), {'area': [-a], 'centroid': cc, 'normal': [-a]}, 'the inverted polygon %s' % P[::-1]))
                        continue
                    for u, v in FRAMES:
                        o = (1, -2, 5)
                        T = lambda x: [o[i] + x[0] * u[i] + x[1] * v[i] for i in range(3)]
                        w = cross(u, v)
                        for R, s in ((P, 1), (P[::-1], -1)):
                            plain.append((env_pts([T(x) for x in R]), {'area': [a], 'centroid': T(cc), 'normal': [s * a * x for x in w]}, 'the polygon %s in space' % R))
            if d == 3:
                rnd = random.Random(n)
                for _ in range(10):
                    P = [[Fraction(rnd.randint(-9, 9)) for _ in range(3)] for _ in range(n)]
                    va = [Fraction(0)] * 3
                    for i in range(n): va = [x + y / 2 for x, y in zip(va, cross(P[i], P[(i + 1) % n]))]
                    bent.append((env_pts(P), {'normal': va}, 'the bent polygon %s' % [tuple(map(int, x)) for x in P]))
            t = {'area': [A] if A is not None else None, 'centroid': c, 'normal': nr}
            compare(ck, f, t, plain, 'area, centroid and normal of a polygon of %d corners in %d dimensions' % (n, d), 'polygon:%d:%d' % (n, d))
            if turned: compare(ck, f, t, turned, 'the area of an inverted polygon of %d corners is negative' % n, 'polygon:inverted:%d' % n)
            if bent: compare(ck, f, t, bent, 'the normal of a bent polygon of %d corners is its vector area' % n, 'polygon:bent:%d' % n)
    h = Heap(F, depth=10)
    h.m[OUT] = mk(('sym', 'garbage'))
    newpoint(h, CEN, 2)
    newpoint(h, NRM, 2)
    h.call(f, None, params(f, args=[pts_list(2, 2), ('addr', OUT), CEN, NRM]))
    zero(ck, f, h, {'area': [h.m.get(OUT)], 'centroid': got(h, CEN, 2), 'normal': got(h, NRM, 2)}, 'a polygon of two corners', 'polygon:degenerate')


def zero(ck, f, h, ts, what, key):
    ok = True
    for k, t in ts.items():
        if t is None or any(x is None for x in t): ok = None
        elif any(x not in (C(0), C(0.0)) for x in t): ok = False; break
    ck.ob('%s gives zero' % what, ok, at(f), 'not all of area, volume, centroid and normal are zero', key)


def det3(a, b, c): return sum(x * y for x, y in zip(cross(a, b), c))


def solid(pts, faces):
    """volume and centroid of the solid between the faces, a face of more than three corners being spanned from its mean point"""
    V, M = Fraction(0), [Fraction(0)] * 3
    tets = []
    for f in faces:
        p = [pts[i] for i in f]
        if len(p) == 3: tris = [p]
        else:
            m = [Fraction(sum(x[i] for x in p)) / len(p) for i in range(3)]
            tris = [(p[i], p[(i + 1) % len(p)], m) for i in range(len(p))]
        tets += tris
    o = [Fraction(sum(p[i] for p in pts)) / len(pts) for i in range(3)]
    least = None
    for t in tets:
        v = det3(*t) / 6
        V += v
        M = [M[i] + v * (t[0][i] + t[1][i] + t[2][i]) / 4 for i in range(3)]
        w = det3(*[[x[i] - o[i] for i in range(3)] for x in t])
        least = w if least is None else min(least, w)
    return V, [x / V for x in M], least


def inverted(pts, faces):
    """volume of the solid and which of its tetrahedra are inverted"""
    o = [Fraction(sum(p[i] for p in pts)) / len(pts) for i in range(3)]
    V, out = Fraction(0), set()
    for fi, f in enumerate(faces):
        p = [pts[i] for i in f]
        m = [Fraction(sum(x[i] for x in p)) / len(p) for i in range(3)]
        for i, t in enumerate([p] if len(p) == 3 else [(p[i], p[(i + 1) % len(p)], m) for i in range(len(p))]):
            w = det3(*[[x[i] - o[i] for i in range(3)] for x in t])
            V += w / 6
            if w < 0: out.add((fi, i))
    return V, out


def polyhedra(ck, F):
    f = F.fn(G + 'polyhed_get_vol_centroid')
    more = dict(SOLIDS)
    p5 = [(4, 0), (5, 3), (2, 6), (-1, 3), (0, 0)]
    more['pentagonal prism'] = ([(x, y, z) for z in (0, 4) for x, y in p5], [(4, 3, 2, 1, 0), (5, 6, 7, 8, 9)] + [(i, (i + 1) % 5, 5 + (i + 1) % 5, 5 + i) for i in range(5)])
    p9 = [(9, 0), (8, 5), (4, 9), (-1, 9), (-6, 7), (-9, 2), (-8, -4), (-3, -9), (5, -8)]
    more['prism over a polygon of 9 corners'] = ([(x, y, z) for z in (0, 9) for x, y in p9], [tuple(range(8, -1, -1)), tuple(range(9, 18))] + [(i, (i + 1) % 9, 9 + (i + 1) % 9, 9 + i) for i in range(9)])
    for name, (pts, faces) in more.items():
        n = len(pts)
        vals_ = [c25.value('v%d_' % i, 3) for i in range(n)]
        rnd = random.Random(5)
        cases, turned, part = [], [], []
        for k in range(12):
            P = [[Fraction(x) + (Fraction(rnd.randint(-4, 4), 10) if k else 0) for x in p] for p in pts]
            if k % 3 == 2: P = [[x + 20 for x in p] for p in P]
            v, c, least = solid(P, faces)
            if least <= 0: continue
            cases.append((env_pts(P), {'volume': [v], 'centroid': c}, 'a %s at %s' % (name, [tuple(map(str, x)) for x in P][:2])))
        if name != 'tetrahedron':
            for k in range(3):
                P = [[Fraction(x) + (Fraction(rnd.randint(-4, 4), 10) if k else 0) for x in p] for p in pts]
                P = [[-p[0], p[1], p[2]] for p in P]
                v, c, least = solid(P, faces)
                turned.append((env_pts(P), {'volume': [-abs(v)]}, 'an inverted %s' % name))
            # a few of the tetrahedra inverted, each of them in some placement
            seen_, tries = set(), []
            for k in range(400):
                P = [[Fraction(x) + (rnd.randint(-30, 30) if rnd.random() < .4 else 0) / Fraction(10) for x in p] for p in pts]
                v, inv = inverted(P, faces)
                if v > 0 and inv: tries.append((len(inv), k, P, v, inv))
            for m, k, P, v, inv in sorted(tries, key=lambda t: t[:2]):
                if inv <= seen_: continue
                seen_ |= inv
                part.append((env_pts(P), {'volume': [-v]}, 'a %s with %d inverted tetrahedra' % (name, m)))
                if len(part) >= 10: break
        for first in range(2):
            fs = faces[first:] + faces[:first]
            if name == 'tetrahedron' and det3(*[[pts[i][k] - pts[0][k] for k in range(3)] for i in (1, 2, 3)]) < 0: raise AnalysisError('the tetrahedron is left-handed')
            h = Heap(F, depth=10, unroll=64)
            h.m[OUT] = mk(('sym', 'garbage'))
            newpoint(h, CEN, 3)
            h.call(f, None, params(f, args=[lst(tuple(vals_)), C(len(fs)), lst(tuple(C(len(x)) for x in fs)), lst(tuple(vals_[i] for x in fs for i in x)), ('addr', OUT), CEN]))
            A = h.m.get(OUT)
            t = {'volume': [A] if A is not None else None, 'centroid': got(h, CEN, 3)}
            ck.need(len(cases), 6, 'positions of a ' + name)
            compare(ck, f, t, cases, 'volume and centroid of a %s' % name + (' (faces turned round)' if first else ''), 'polyhed:%s:%d' % (name, first))
            if turned: compare(ck, f, t, turned, 'the volume of an inverted %s is negative' % name, 'polyhed:inverted:%s:%d' % (name, first))
            if part: compare(ck, f, t, part, 'the volume of a partly inverted %s is negative' % name, 'polyhed:partly:%s:%d' % (name, first))
    h = Heap(F, depth=10)
    h.m[OUT] = mk(('sym', 'garbage'))
    newpoint(h, CEN, 3)
    h.call(f, None, params(f, args=[pts_list(3, 3), C(0), EMPTY, EMPTY, ('addr', OUT), CEN]))
    zero(ck, f, h, {'volume': [h.m.get(OUT)], 'centroid': got(h, CEN, 3)}, 'a polyhedron of three corners', 'polyhed:degenerate')


def segments(ck, F):
    import math
    gt = F.enum(G + 'Geom_type')
    f = F.fn(G + 'segment_get_vol_centroid')
    g = F.fn(G + 'face1d_get_area')
    pairs = [(0, 1), (1, 4), (Fraction(1, 2), Fraction(7, 3)), (5, 9)]
    for name in ('CARTESIAN', 'SPHERICAL'):
        for d in ((1, 2, 3) if name == 'CARTESIAN' else (1,)):
            h = Heap(F, depth=10)
            h.m[OUT] = mk(('sym', 'garbage'))
            newpoint(h, CEN, d)
            h.call(f, None, params(f, args=[pts_list(2, d), C(gt[name]), ('addr', OUT), CEN]))
            A = h.m.get(OUT)
            cases = []
            for a, b in pairs:
                if d == 1: P = [[Fraction(a)], [Fraction(b)]]
                else: P = [[Fraction(a)] * d, [Fraction(a) + Fraction(b - a) * x for x in ((3, 4) if d == 2 else (2, 3, 6))]]
                L = Fraction(b - a) * {1: 1, 2: 5, 3: 7}[d]
                if name == 'CARTESIAN': w = {'volume': [L], 'centroid': [(x + y) / 2 for x, y in zip(*P)]}
                else: w = {'volume': [4 * math.pi / 3 * float(Fraction(b) ** 3 - Fraction(a) ** 3)]}
                cases.append((env_pts(P), w, 'the segment from %s to %s' % (a, b)))
                if name == 'CARTESIAN': cases.append((env_pts(P[::-1]), w, 'the segment from %s to %s' % (b, a)))
            compare(ck, f, {'volume': [A] if A is not None else None, 'centroid': got(h, CEN, d)}, cases, 'volume and centroid of a %s segment in %d dimensions' % (name.lower(), d), 'segment:%s:%d' % (name, d))
        h = Heap(F, depth=10)
        h.m[OUT] = mk(('sym', 'garbage'))
        h.call(g, None, params(g, args=[pts_list(1, 1), C(gt[name]), ('addr', OUT)]))
        A = h.m.get(OUT)
        cases = [(env_pts([[x]]), {'area': [Fraction(1) if name == 'CARTESIAN' else 4 * math.pi * float(x) ** 2]}, 'the point %s' % x) for x in map(Fraction, (0, 1, 2, 7))]
        compare(ck, g, {'area': [A] if A is not None else None}, cases, 'area of a %s face in one dimension' % name.lower(), 'face1d:' + name)
