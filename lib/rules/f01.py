"""F01: the conforming P1 element on a triangle is the nodal one and its matrices are the exact integrals"""
import front
from .sym import *
from . import geo
from .g01 import where_of

PROBE = "fem"
UNIT = [(0, 0), (1, 0), (0, 1)]
REF = {"ccw": UNIT, "cw": [UNIT[0], UNIT[2], UNIT[1]]}
Fr = geo.Fr


def total(xs):
    r = 0
    for x in xs:
        r = alg.add(r, x)
    return r


class Tri:
    def __init__(self, side):
        self.sh = geo.Shape("tri", None, REF[side], [(0, 1), (1, 2), (2, 0)])
        self.p = [vec(q) for q in self.sh.pts().e]
        self.area = alg.mul(Fr(1, 2), self.sh.det)

    def call(self, tu, fn, *args):
        I, v = geo.run_pos(tu, fn, [self.sh.pts()] + list(args), self.sh.pos, geo.summaries())
        return v

    def pos(self, v): return [geo.posit(x, self.sh.pos) for x in vec(v)]

    def rows(self, v, n, m):
        if (v.r, v.c) != (n, m):
            raise vg.ShapeError("a %dx%d matrix where %dx%d was expected" % (v.r, v.c, n, m))
        return [[geo.posit(v.e[i * m + j], self.sh.pos) for j in range(m)] for i in range(n)]


def one(tu, job):
    kind, side = job
    T = Tri(side)
    x, y = alg.var("x"), alg.var("y")
    if kind == "phi":
        f = vec(T.call(tu, "fe_phi", cpt([x, y])))
        if len(f) != 3:
            return False, "%d functions" % len(f)
        for i in range(3):
            for j in range(3):
                v = vec(T.call(tu, "fe_phi", cpt(T.p[j])))[i]
                if not alg.eq(v, int(i == j)):
                    return False, "function %d at vertex %d is not %d" % (i, j, int(i == j))
        # affine data are reproduced everywhere
        if not alg.eq(total(f), 1):
            return False, "the functions do not sum to one"
        for c, k in ((x, 0), (y, 1)):
            if not alg.eq(total([alg.mul(f[i], T.p[i][k]) for i in range(3)]), c):
                return False, "coordinate %d is not reproduced" % k
        return True, "3 functions"
    if kind == "dphi":
        f = vec(T.call(tu, "fe_phi", cpt([x, y])))
        g = T.rows(T.call(tu, "fe_dphi"), 3, 2)
        for i in range(3):
            for k, c in enumerate((x, y)):
                if not alg.eq(g[i][k], alg.diff(f[i], atom_of(c))):
                    return False, "derivative %d of function %d" % (k, i)
        return True, "6 derivatives"
    # exact gradients of the barycentric coordinates
    P, S = T.p, alg.mul(2, T.area if side == "ccw" else alg.mul(-1, T.area))
    g = []
    for i in range(3):
        a, b = P[(i + 1) % 3], P[(i + 2) % 3]
        g.append([alg.div(alg.sub(a[1], b[1]), S), alg.div(alg.sub(b[0], a[0]), S)])
    if kind == "mass":
        M = T.rows(T.call(tu, "fe_mass"), 3, 3)
        for i in range(3):
            for j in range(3):
                if not alg.eq(M[i][j], alg.mul(Fr(2 if i == j else 1, 12), T.area)):
                    return False, "mass entry (%d, %d)" % (i, j)
        return True, "9 entries"
    if kind in ("stiff", "stiffk"):
        if kind == "stiff":
            K = [[1, 0], [0, 1]]
            M = T.call(tu, "fe_stiff")
        else:
            K = [[alg.var("k%d%d" % (i, j)) for j in range(2)] for i in range(2)]
            M = T.call(tu, "fe_stiffk", Mat(2, 2, [e for r in K for e in r]))
        M = T.rows(M, 3, 3)
        for i in range(3):
            for j in range(3):
                w = total([alg.mul(alg.mul(g[i][a], K[a][b]), g[j][b]) for a in range(2) for b in range(2)])
                if not alg.eq(M[i][j], alg.mul(T.area, w)):
                    return False, "stiffness entry (%d, %d)" % (i, j)
        return True, "9 entries"
    if kind == "rhs":
        c = [alg.var("c%d" % i) for i in range(3)]
        r = T.pos(T.call(tu, "fe_rhs", *c))
        bar = [alg.mul(Fr(1, 3), total([p[k] for p in P])) for k in range(2)]
        want = alg.mul(Fr(1, 3), alg.mul(T.area, total([c[0], alg.mul(c[1], bar[0]), alg.mul(c[2], bar[1])])))
        if len(r) != 3 or any(not alg.eq(v, want) for v in r):
            return False, "the load is not the value at the barycentre times a third of the area"
        return True, "3 entries"


def jobs(tier):
    return [("%s/%s" % (k, s), (k, s)) for s in REF for k in ("phi", "dphi", "mass", "stiff", "stiffk", "rhs")]


def main(rep):
    tu = front.export(front.PROBES + "/fem.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, "fe_" + j[0]), r, "conforming P1 element (%s)" % oid)
    return rep.finish(
        "value numbering over a symbolic triangle (every affine image of the unit one, both orientations): nodal functions, their gradients, mass, stiffness "
        "(identity and general tensor) and the one-point load equal their definitions",
        ["the triangle is not flat"], analysed={"obligations": len(J), "functions": len(tu.functions)})
