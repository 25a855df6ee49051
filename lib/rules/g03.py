"""G03: bounding boxes, mean diameter, point-in-cell and convexity predicates, axes of an element."""
from .sym import *
from fractions import Fraction as Fr
from itertools import permutations, product
import front

PROBE = "geom2"
# name, dimension, vertices of a reference element (in the order of the family)
SHAPES = {"s2": [(0, 0), (1, 0), (0, 1)], "c2": [(0, 0), (1, 0), (0, 1), (1, 1)], "s3": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
          "gt": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], "g1": [(0,), (1,)],
          "c3": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)],
          "g2": [(0, 0), (2, 0), (3, 1), (2, 2), (0, 2)]}
DIM = {k: len(v[0]) for k, v in SHAPES.items()}


SK2 = lambda x, y: (Fr(3 * x + y, 2), Fr(2 * y - x) + Fr(x * y, 3))
SK3 = lambda x, y, z: (Fr(3 * x + y - z, 2), Fr(2 * y - x + z), Fr(x + 3 * z + 2 * y, 3))
LOCAL = {k: [v, [(SK2 if len(v[0]) == 2 else SK3)(*p) for p in v]] for k, v in SHAPES.items() if k in ("s2", "s3", "c2", "c3", "g2")}
# polygons whose first vertices are aligned (hanging nodes)
LOCAL["g2"] += [[(0, 0), (1, 0), (2, 0), (2, 2), (0, 2)], [(2, 2), (1, 1), (0, 0), (0, 4), (2, 4)], [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1)]]


def weak_orders(n):
    """rank of each of n values, every pattern of order and equality"""
    return [r for r in product(range(n), repeat=n) if set(r) == set(range(max(r) + 1))]


def values(ranks, k):
    """distinct ranks get values whose differences are all distinct"""
    return [Fr(3 ** r + (k - 1) * r, 4) - 2 for r in ranks]


def call(tu, fn, args, eig=None):
    I = vg.Interp(tu, None)
    I.positive = set(alg.POSITIVE)
    if eig:
        I.eig = eig
    fs = tu.fns(fn)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % fn)
    return I.call_fn(fs[0], [a if not isinstance(a, (Obj, Seq, Mat)) else I.new(a) for a in args])


def comps(v):
    if isinstance(v, vg.Loc):
        raise Und("a location")
    return vec(v)


def patterns(fam, tier):
    """lists of rank tuples, one tuple per axis, of the vertices of an element"""
    n, dim = len(SHAPES[fam]), DIM[fam]
    if n <= 4:
        w = weak_orders(n)
        if tier != "thorough" and n == 4:
            w = [r for r in w if len(set(r)) in (2, 4)]
    elif n == 5:
        w = [r for r in weak_orders(5) if len(set(r)) == 5] if tier == "thorough" else \
            [tuple((i * s + o) % 5 for i in range(5)) for s in (1, 2, 3, 4) for o in range(5)]
    else:
        w = [tuple((i * s + o) % n for i in range(n)) for s in (1, 3, 5, 7) for o in range(n)]
        w += [tuple(c[0] for c in SHAPES["c3"]), tuple(c[1] for c in SHAPES["c3"]), tuple(c[2] for c in SHAPES["c3"])]
    return [[w[(i + 17 * k * k + 5 * k) % len(w)] for k in range(dim)] for i in range(len(w))]


def widths_of(pats, ordv):
    w, m = [], []
    for ranks, vals in zip(pats, ordv):
        lo, hi = vals[ranks.index(0)], vals[ranks.index(max(ranks))]
        w.append(alg.sub(hi, lo))
        m.append(alg.mul(Fr(1, 2), alg.add(hi, lo)))
    return w, m


def same(got, want):
    got = comps(got)
    return len(got) == len(want) and all(close(g, w) for g, w in zip(got, want))


def norm2(a, b):
    s = 0
    for x, y in zip(a, b):
        d = alg.sub(x, y)
        s = alg.add(s, alg.mul(d, d))
    return s


# ---------------------------------------------------------------- predicates
POLYS = {"triangle": [(0, 0), (3, 0), (1, 2)], "square": [(0, 0), (2, 0), (2, 2), (0, 2)], "trapezium": [(0, 0), (4, 0), (3, 2), (1, 2)],
         "pentagon": [(0, 0), (3, -1), (5, 1), (3, 4), (0, 3)], "hexagon": [(2, 0), (4, 0), (6, 3), (4, 6), (2, 6), (0, 3)],
         "collinear": [(0, 0), (1, 0), (2, 0), (2, 2), (0, 2)], "far": [(100, 100), (101, 100), (101, 102)],
         "negative": [(-5, -4), (-1, -4), (-2, -1), (-5, -2)]}
CONCAVE = {"arrow": [(0, 0), (4, 0), (2, 1), (2, 4)], "L": [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], "dent": [(0, 0), (4, 0), (4, 4), (2, 3), (0, 4)],
           "nearly": [(0, 0), (2, 0), (4, Fr(1, 100)), (4, 4), (2, Fr(4) - Fr(1, 1000)), (0, 4)], "slit": [(0, 0), (5, 0), (5, 5), (3, 5), (2, 1), (1, 5), (0, 5)]}
TETS = {"reference": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], "skew": [(1, 2, 0), (4, 1, 1), (2, 5, 1), (3, 3, 6)],
        "flat": [(0, 0, 0), (5, 1, 0), (1, 5, 0), (2, 2, 1)], "negative": [(-3, -2, -1), (-1, -2, -4), (-2, -5, -2), (-4, -3, -5)]}


# the answers do not depend on the size
def resized(P, e):
    return [tuple(x * Fr(2) ** e for x in p) for p in P]


for _D, _n in ((POLYS, ("triangle", "pentagon")), (CONCAVE, ("arrow", "nearly")), (TETS, ("skew", "flat"))):
    for _k in _n:
        _D[_k + "-tiny"], _D[_k + "-huge"] = resized(_D[_k], -40), resized(_D[_k], 30)


def comb(P, w):
    t = Fr(sum(w))
    return tuple(sum(Fr(p[k]) * x for p, x in zip(P, w)) / t for k in range(len(P[0])))


def side2(P, q):
    """+1 strictly inside, 0 on the boundary, -1 strictly outside of a convex polygon given counter-clockwise"""
    s = []
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        s.append((q[1] - a[1]) * (b[0] - a[0]) - (q[0] - a[0]) * (b[1] - a[1]))
    return -1 if any(x < 0 for x in s) else 0 if any(x == 0 for x in s) else 1


def queries2(P):
    n = len(P)
    q = [comb(P, [1] * n)]
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        q.append(tuple(Fr(x) for x in a))
        for t in (Fr(1, 2), Fr(1, 3)):
            m = tuple(a[k] + t * (b[k] - a[k]) for k in (0, 1))
            q.append(m)
            for e in (Fr(1, 10), Fr(-1, 10), Fr(-3), Fr(-1, 2**20)):         # to the left of the side (inside) and to the right
                q.append((m[0] - e * (b[1] - a[1]), m[1] + e * (b[0] - a[0])))
        for t in (Fr(-1, 5), Fr(6, 5), Fr(4), Fr(-3)):        # on the line of the side, outside of it
            q.append(tuple(a[k] + t * (b[k] - a[k]) for k in (0, 1)))
        q.append(comb(P, [1 if j != i else 50 for j in range(n)]))
    return q


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def bary3(P, q):
    d = lambda a, b: [x - y for x, y in zip(a, b)]
    D = det3(d(P[1], P[0]), d(P[2], P[0]), d(P[3], P[0]))
    out = []
    for i in range(4):
        R = list(P)
        R[i] = q
        out.append(det3(d(R[1], R[0]), d(R[2], R[0]), d(R[3], R[0])) / Fr(D))
    return out


def queries3():
    """barycentric coordinates: all patterns of signs, several sizes"""
    out = []
    for s in product((-1, 0, 1), repeat=4):
        for w in ((1, 1, 1, 1), (1, 2, 3, 5), (7, 1, 2, 1), (1, 9, 1, 4)):
            b = [x * y for x, y in zip(s, w)]
            if sum(b) > 0:
                out.append([Fr(x, sum(b)) for x in b])
    return [list(x) for x in sorted({tuple(b) for b in out})]


def convex(P):
    n = len(P)
    for i in range(n):
        a, b, c = P[i], P[(i + 1) % n], P[(i + 2) % n]
        if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) < 0:
            return False
    return True


def second_moment(fam, P):
    """integral of (x - b)(x - b)^T over a simplex or an axis-parallel box, b the mean of the vertices"""
    n, dim = len(P), len(P[0])
    b = comb(P, [1] * n)
    r = [[Fr(p[k]) - b[k] for k in range(dim)] for p in P]
    if fam[0] == "s":
        d = [[P[i][k] - P[0][k] for k in range(dim)] for i in range(1, n)]
        vol = abs(Fr(d[0][0] * d[1][1] - d[0][1] * d[1][0], 2) if dim == 2 else Fr(det3(*d), 6))
        f = vol / ((dim + 1) * (dim + 2))
        return [[f * sum(x[i] * x[j] for x in r) for j in range(dim)] for i in range(dim)]
    h = [max(p[k] for p in P) - min(p[k] for p in P) for k in range(dim)]
    vol = Fr(1)
    for x in h:
        vol *= x
    return [[vol * Fr(h[i]) ** 2 / 12 if i == j else Fr(0) for j in range(dim)] for i in range(dim)]


AXSH = {"s2": [[(0, 0), (4, 1), (1, 3)], [(2, -1), (-3, 0), (0, 5)]], "s3": [[(0, 0, 0), (3, 1, 0), (1, 4, 1), (0, 1, 5)]],
        "c2": [[(1, 2), (5, 2), (1, 4), (5, 4)]], "c3": [[(0, 0, 0), (3, 0, 0), (0, 2, 0), (3, 2, 0), (0, 0, 7), (3, 0, 7), (0, 2, 7), (3, 2, 7)]]}


class Mismatch(Exception):
    pass


def one(tu, job):
    kind, fam = job[0], job[1]
    if kind in ("widths", "bbbar"):
        pats = job[2]
        ov = [values(r, k) for k, r in enumerate(pats)]
        P = Seq([cpt([o[i] for o in ov]) for i in range(len(SHAPES[fam]))])
        w, m = widths_of(pats, ov)
        got = call(tu, "%s_%s" % (fam, kind), [P])
        return same(got, w if kind == "widths" else m), "%s of a cell with the vertices ordered as %s: %s" % (kind, pats, str(comps(got))[:80])
    if kind == "box":
        pats, ax = job[2], job[3]
        vals = [values(r, k) for k, r in enumerate(pats)]
        P = Seq([cpt([o[i] for o in vals]) for i in range(len(SHAPES[fam]))])
        dim = DIM[fam]
        if ax is None:
            got, A = call(tu, fam + "_box", [P]), [[int(i == j) for j in range(dim)] for i in range(dim)]
        else:
            A = ax
            got = call(tu, fam + "_boxax", [P, Mat(dim, dim, [A[i][j] for i in range(dim) for j in range(dim)])])
        pr = [[sum(A[k][j] * vals[k][i] for k in range(dim)) for i in range(len(SHAPES[fam]))] for j in range(dim)]
        want = [max(x) - min(x) for x in pr]
        return same(got, want), "the bounding box along the axes %s has the sizes %s, expected %s" % (A, str(comps(got))[:80], [str(x) for x in want])
    if kind == "face":
        fn, i = job[2], job[3]
        vals = [[Fr((7 * j + 3 * k * j * j + k) % 11, 2) for j in range(len(SHAPES[fam]))] for k in range(DIM[fam])]
        P = Seq([cpt([o[j] for o in vals]) for j in range(len(SHAPES[fam]))])
        nf = int(vg.num(call(tu, fam + "_nf", [P])))
        if i >= nf:
            return True, "no such face"
        F = [comps(p) for p in call(tu, fam + "_fpts", [P, i]).e]
        lo, hi = [min(p[k] for p in F) for k in range(DIM[fam])], [max(p[k] for p in F) for k in range(DIM[fam])]
        want = [(a + b) / 2 for a, b in zip(lo, hi)] if fn == "fbbbar" else [b - a for a, b in zip(lo, hi)]
        got = call(tu, "%s_%s" % (fam, fn), [P, i])
        return same(got, want), "%s of face %d: %s, expected %s" % (fn, i, str(comps(got))[:80], [str(x) for x in want])
    if kind == "avg":
        if fam in ("star", "two"):
            from .h02 import STAR, TWO
            P, cells = (STAR, [(0, 1, 4), (1, 2, 4), (2, 3, 4), (0, 3, 4)]) if fam == "star" else (TWO, [(0, 1, 2, 3), (0, 1, 2, 4)])
        else:
            P, cells = SHAPES[fam], [range(len(SHAPES[fam]))]
        got = vg.num(call(tu, fam + "_avg", [Seq([cpt(list(p)) for p in P])]))
        s = 0
        for c in cells:
            s = alg.add(s, alg.sqrt_(max(norm2([Fr(x) for x in P[i]], [Fr(x) for x in P[j]]) for i in c for j in c)))
        want = alg.mul(Fr(1, len(cells)), s)
        return close(got, want), "average_diameter gives %s, expected %s" % (str(got)[:60], str(want)[:60])
    if kind in ("in2", "in2g"):
        P = POLYS[fam] if job[2] > 0 else POLYS[fam][::-1]
        k = job[3] % len(P)
        P = P[k:] + P[:k]
        C = POLYS[fam]
        Q = queries2(C)
        got = [int(vg.num(x)) for x in call(tu, ("g2" if kind == "in2g" else "s2") + "_inside",
                                            [Seq([cpt(list(map(Fr, p))) for p in P]), Seq([cpt(list(q)) for q in Q])]).e]
        for q, g in zip(Q, got):
            s = side2(C, q)
            if g != (s >= 0):
                return False, "the point (%s) is %s the polygon %s and is_inside says %s" % (
                    ", ".join(map(str, q)), {1: "inside", 0: "on the boundary of", -1: "outside"}[s], P, bool(g))
        return True, "%d points" % len(Q)
    if kind == "in3":
        C = TETS[fam]
        P = [C[i] for i in job[2]]
        B = queries3()
        Q = [tuple(sum(b * p[k] for b, p in zip(bc, C)) for k in range(3)) for bc in B]
        got = [int(vg.num(x)) for x in call(tu, "s3_inside", [Seq([cpt(list(map(Fr, p))) for p in P]), Seq([cpt(list(q)) for q in Q])]).e]
        for b, q, g in zip(B, Q, got):
            if g != all(x >= 0 for x in b):
                return False, "the point with the barycentric coordinates %s in the tetrahedron %s: is_inside says %s" % ([str(x) for x in b], P, bool(g))
        return True, "%d points" % len(Q)
    if kind == "convex":
        P, want = job[2], job[3]
        got = vg.tobool(call(tu, "g2_convex", [Seq([cpt(list(map(Fr, p))) for p in P])]))
        return got is (alg.TRUE if want else alg.FALSE), "is_convex of %s gives %s" % (P, str(got)[:20])
    if kind in ("inertia", "scaled"):
        P = AXSH[fam][job[2]]
        dim = len(P[0])
        M = second_moment(fam, P)
        lam = [alg.var("w%d" % i) for i in range(dim)]
        lamc = [Fr(1), Fr(4), Fr(9)][:dim]
        Q = [alg.var("q%d%d" % (i, j)) for i in range(dim) for j in range(dim)]
        seen = []

        def eig(m):
            seen.append(m)
            for i in range(dim):
                for j in range(dim):
                    x = alg.numeric(vg.num(m.at(i, j)))
                    if x is None:
                        raise Und("a matrix entry that is not a constant")
                    if abs(x - alg.numeric(M[i][j])) > 1e-9:
                        raise Mismatch("the axes are those of a matrix with the entry (%d, %d) = %s instead of %s" % (i, j, str(m.at(i, j))[:40], M[i][j]))
            return list(lamc), list(Q)
        try:
            got = call(tu, "%s_%s" % (fam, kind), [Seq([cpt(list(map(Fr, p))) for p in P])], eig)
        except Mismatch as ex:
            return False, str(ex)
        g = [vg.num(x) for x in got.e]
        if kind == "inertia" and fam[0] == "c":
            return all(close(x, int(i // dim == i % dim), 1e-12) for i, x in enumerate(g)) and not seen, "axes of a box aligned with the axes"
        if not seen:
            return False, "the axes are not computed from the second moments"
        if kind == "inertia":
            return all(alg.eq(x, y) for x, y in zip(g, Q)), "the axes are not the eigenvectors"
        diam2 = max(norm2([Fr(x) for x in p], [Fr(x) for x in q]) for p in P for q in P)
        for i in range(dim):
            for j in range(dim):
                want = alg.mul(Q[i * dim + j], alg.mul(alg.inv(alg.sqrt_(diam2)), alg.mul(2, alg.sqrt_(lamc[-1] / lamc[j]))))
                if not close(g[i * dim + j], want):
                    return False, "axis %d is not scaled by 2/diameter and the square root of the ratio to the largest moment" % j
        return True, "axes"
    if kind == "local":
        dim = DIM[fam]
        V = [[Fr(c) for c in p] for p in LOCAL[fam][job[2]]]
        try:
            got = [vg.num(x) for x in call(tu, fam + "_local", [Seq([cpt(list(v)) for v in V])]).e]
        except (alg.DivZero, vg.Singular, vg.Und) as e:
            if type(e) is vg.Und and "division by zero" not in str(e):
                raise
            return False, "the local axes are degenerate (division by zero)"
        col = [[got[i * dim + j] for i in range(dim)] for j in range(dim)]
        d = lambda a, b: [alg.sub(x, y) for x, y in zip(a, b)]
        dot = lambda a, b: ql_sum([alg.mul(x, y) for x, y in zip(a, b)])
        for i in range(dim):
            if close(dot(col[i], col[i]), 0):
                return False, "axis %d is zero" % i
            for j in range(i):
                if not close(dot(col[i], col[j]), 0):
                    return False, "the local axes %d and %d are not orthogonal" % (j, i)
        U = d(V[1], V[0])                    # the first axis follows the first edge
        c = dot(col[0], U)
        if not (alg.numeric(c) or 0) > 0 or any(not close(dot(a, U), 0) for a in col[1:]):
            return False, "the first axis is not along the first edge"
        return True, "orthogonal local axes"
    raise Und(kind)


def ql_sum(xs):
    s = 0
    for x in xs:
        s = alg.add(s, x)
    return s


ROT = {1: [[[-1]]], 2: [[[0, 1], [1, 0]], [[0, -1], [1, 0]], [[Fr(3, 5), Fr(-4, 5)], [Fr(4, 5), Fr(3, 5)]]],
       3: [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]], [[Fr(1, 3), Fr(2, 3), Fr(2, 3)], [Fr(2, 3), Fr(1, 3), Fr(-2, 3)], [Fr(2, 3), Fr(-2, 3), Fr(1, 3)]]]}


def jobs(tier):
    th = tier == "thorough"
    J = []
    for fam in SHAPES:
        pats = patterns(fam, tier)
        for i, p in enumerate(pats):
            for kind in ("widths", "bbbar"):
                J.append(("%s/%s/%d" % (kind, fam, i), (kind, fam, p)))
            for a, ax in enumerate([None] + ROT[DIM[fam]]):
                if a == 0 or th or i % 5 == 0:
                    J.append(("box/%s/%d/%d" % (fam, i, a), ("box", fam, p, ax)))
        for fn in ("fwidths", "fbbbar", "fbox"):
            for i in range(6 if fam != "g1" else 0):
                J.append(("face/%s/%s/%d" % (fam, fn, i), ("face", fam, fn, i)))
        J.append(("avg/" + fam, ("avg", fam)))
    J += [("avg/star", ("avg", "star")), ("avg/two", ("avg", "two"))]
    for name, P in POLYS.items():
        for o in (1, -1):
            for k in range(len(P) if th else 2):
                J.append(("inside2/%s/%d/%d" % (name, o, k), ("in2g", name, o, k)))
        if len(P) == 3:
            J.append(("inside2/simplex/%s" % name, ("in2", name, 1, 0)))
            J.append(("inside2/simplex/%s/reversed" % name, ("in2", name, -1, 1)))
    perms = list(permutations(range(4)))
    for name in TETS:
        for i, p in enumerate(perms):
            if th or i % 3 == 0 or i == 1:
                J.append(("inside3/%s/%s" % (name, "".join(map(str, p))), ("in3", name, p)))
    for name, P in list(POLYS.items()) + list(CONCAVE.items()):
        for k in range(len(P)):
            J.append(("convex/%s/%d" % (name, k), ("convex", name, P[k:] + P[:k], convex(P))))
    for fam, L in AXSH.items():
        for i in range(len(L)):
            J.append(("inertia/%s/%d" % (fam, i), ("inertia", fam, i)))
            J.append(("scaled/%s/%d" % (fam, i), ("scaled", fam, i)))
    for fam, L in LOCAL.items():
        for i in range(len(L)):
            J.append(("axes/%s/%d" % (fam, i), ("local", fam, i)))
    return J


FN = {"widths": "diameters", "bbbar": "bb_barycenter", "box": "diameter_boundingbox", "face": "diameter_boundingbox", "avg": "average_diameter",
      "in2": "is_inside", "in2g": "is_inside", "in3": "is_inside", "convex": "is_convex", "inertia": "inertia_axes", "scaled": "scaled_inertia_axes",
      "local": "element_local_axes"}


def anchor(tu, job):
    n = FN[job[0]] if job[0] != "face" else {"fwidths": "diameters", "fbbbar": "bb_barycenter", "fbox": "diameter_boundingbox"}[job[2]]
    c = [f for f in tu.functions if front.short(f["q"]).split("<")[0] == n and "body" in f]
    if n == "is_inside":
        c = [f for f in c if ("simplicial" in tu.file(f)) == (job[0] == "in3")] or c
    return tu.where(c[0]) if c else n


def main(rep):
    tu = front.export(front.PROBES + "/geom2.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, anchor(tu, j), r, "geometry query")
    return rep.finish(
        "value numbering of the geometric queries: bounding boxes against the extremes of the coordinates for every order of the vertices, "
        "predicates against exact orientation signs on points of every region, axes against the exact matrix of second moments",
        ["polygons are given with their vertices along the boundary"], analysed={"obligations": len(J), "functions": len(tu.functions)})
