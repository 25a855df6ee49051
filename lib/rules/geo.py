"""Shapes, affine parametrisations and exact reference integrals for the geometry rules."""
import itertools
from fractions import Fraction
from math import factorial
import alg, vg
from .sym import *
from . import quadlib as ql

Fr = Fraction


class Shape:
    """a reference shape seen through every map x = A u + b (det A > 0)"""

    def __init__(self, key, pre, ref, faces, mode="full", convex=True):
        self.key, self.pre, self.mode, self.convex = key, pre, mode, convex
        self.ref = [tuple(Fr(c) for c in p) for p in ref]
        self.dim = len(ref[0])
        self.faces = faces              # vertex lists of the faces (any order of faces, cyclic order inside)
        d = self.dim
        self.b = [alg.var("t" + "xyz"[k]) for k in range(d)]
        if mode == "diag":
            self.A = [[alg.var("h" + "xyz"[k]) if j == k else 0 for j in range(d)] for k in range(d)]
            self.pos = [self.A[k][k] for k in range(d)]
        else:
            self.A = [[alg.var("A%d%d" % (k, j)) for j in range(d)] for k in range(d)]
            self.pos = [vg.mdet(vg.Mat(d, d, [x for r in self.A for x in r]))]
        self.det = vg.mdet(vg.Mat(d, d, [x for r in self.A for x in r]))

    def image(self, u):
        return [ql.sum_([alg.mul(self.A[k][j], u[j]) for j in range(self.dim)] + [self.b[k]]) for k in range(self.dim)]

    def linear(self, u):
        return [ql.sum_([alg.mul(self.A[k][j], u[j]) for j in range(self.dim)]) for k in range(self.dim)]

    def pts(self):
        return vg.Seq([cpt(self.image(u)) for u in self.ref])

    def preimage(self, x):
        """reference coordinates of an affine combination of the parameters, None if it is not one"""
        us = []
        for k in range(self.dim):
            row = [self.A[k][j] for j in range(self.dim)]
            nz = [j for j in range(self.dim) if not is_const(row[j])]
            c, c0 = lin_coeffs(x[k], [atom_of(row[j]) for j in nz] + [atom_of(self.b[k])])
            if abs(float(c0)) > 1e-12 or abs(float(c[-1]) - 1) > 1e-12:
                return None
            u = {}
            for j, v in zip(nz, c[:-1]):
                u[j] = v
            us.append(u)
        out = []
        for j in range(self.dim):
            vals = [u[j] for u in us if j in u]
            if max(vals) - min(vals) > 1e-11:
                return None
            out.append(vals[0])
        return out


# ---------------------------------------------------------------- reference shapes
def square(k=1): return [(0, 0), (k, 0), (k, k), (0, k)]


def ring(n): return [[i, (i + 1) % n] for i in range(n)]


TET_F = [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]
CUBE_G = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
CUBE_GF = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
PENT = [(0, 0), (4, 0), (5, 3), (2, 5), (-1, 2)]
PRISM = [(x, y, z) for z in (0, 2) for x, y in PENT]
PRISM_F = [[4, 3, 2, 1, 0], [5, 6, 7, 8, 9], [0, 1, 6, 5], [1, 2, 7, 6], [2, 3, 8, 7], [3, 4, 9, 8], [4, 0, 5, 9]]
CART3 = [(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]
CART3_F = [[0, 2, 6, 4], [1, 3, 7, 5], [0, 1, 5, 4], [2, 3, 7, 6], [0, 1, 3, 2], [4, 5, 7, 6]]


# a box with hanging nodes: the first vertices of several faces are aligned
PRISMH = [(x, y, z) for z in (0, 2) for x, y in [(0, 0), (1, 0), (2, 0), (2, 3), (0, 3)]]
PRISMH_F = [[0, 1, 2, 3, 4], [7, 6, 5, 9, 8], [0, 1, 2, 7, 6, 5], [2, 3, 8, 7], [3, 4, 9, 8], [4, 0, 5, 9]]


def shapes():
    S = [
        Shape("interval", "g1", [(0,), (1,)], [[0], [1]], "diag"),
        Shape("simplicial-triangle", "s2", [(0, 0), (1, 0), (0, 1)], [[0, 1], [0, 2], [1, 2]]),
        Shape("simplicial-triangle-cw", "s2", [(0, 0), (0, 1), (1, 0)], [[0, 1], [0, 2], [1, 2]]),
        Shape("cartesian-rectangle", "c2", [(0, 0), (1, 0), (0, 1), (1, 1)], [[0, 1], [0, 2], [1, 3], [2, 3]], "diag"),
        Shape("polygon-triangle", "g2", [(0, 0), (1, 0), (0, 1)], ring(3)),
        Shape("polygon-parallelogram", "g2", square(), ring(4)),
        Shape("polygon-trapezoid", "g2", [(0, 0), (3, 0), (2, 1), (0, 1)], ring(4)),
        Shape("polygon-kite", "g2", [(0, 0), (3, 1), (4, 4), (1, 3)], ring(4)),
        Shape("polygon-pentagon", "g2", PENT, ring(5)),
        Shape("polygon-hexagon-hanging", "g2", [(0, 0), (2, 0), (4, 0), (4, 2), (2, 3), (0, 3)], ring(6)),
        Shape("simplicial-tetrahedron", "s3", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], TET_F),
        Shape("simplicial-tetrahedron-mirror", "s3", [(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1)], TET_F),
        Shape("cartesian-box", "c3", CART3, CART3_F, "diag"),
        Shape("polyhedron-tetrahedron", "gt", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]),
        Shape("polyhedron-cube", "gc", CUBE_G, CUBE_GF),
        Shape("polyhedron-prism", "gp", PRISM, PRISM_F),
        Shape("polyhedron-prism-hanging", "gf", PRISMH, PRISMH_F),
    ]
    return S


def nonconvex_shapes():
    return [
        Shape("polygon-L", "g2", [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], ring(6), convex=False),
        Shape("polygon-U", "g2", [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)], ring(8), convex=False),
        Shape("polygon-arrow", "g2", [(0, 0), (4, 0), (4, 4), (3, 1)], ring(4), convex=False),
    ]


# ---------------------------------------------------------------- exact reference integrals
def simplex_moment(vs, a):
    """integral of u^a over the simplex with the given vertices (top-dimensional), signed"""
    d = len(vs) - 1
    J = [[vs[i + 1][k] - vs[0][k] for k in range(d)] for i in range(d)]
    det = fdet(J)
    # expand prod_k (sum_i lambda_i v_i[k])^a_k over barycentric coordinates
    poly = {(0,) * (d + 1): Fr(1)}
    for k in range(d):
        for _ in range(a[k]):
            q = {}
            for m, c in poly.items():
                for i in range(d + 1):
                    if vs[i][k]:
                        mm = m[:i] + (m[i] + 1,) + m[i + 1:]
                        q[mm] = q.get(mm, 0) + c * vs[i][k]
            poly = q
    s = Fr(0)
    for m, c in poly.items():
        t = Fr(factorial(d))
        for x in m:
            t *= factorial(x)
        s += c * t / factorial(d + sum(m))
    return s * det / factorial(d)


def fdet(M):
    n = len(M)
    if n == 1:
        return Fr(M[0][0])
    if n == 2:
        return Fr(M[0][0] * M[1][1] - M[0][1] * M[1][0])
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def decomposition(sh):
    """signed simplices covering the reference shape (positively oriented overall)"""
    r = sh.ref
    if sh.dim == 1:
        return [[r[0], r[1]]]
    if sh.dim == 2:
        if len(r) == 4 and sh.pre == "c2":
            r = [r[0], r[1], r[3], r[2]]
        return [[r[0], r[i], r[i + 1]] for i in range(1, len(r) - 1)]
    c = tuple(sum(p[k] for p in r) / len(r) for k in range(3))
    out = []
    for f in sh.faces:
        for i in range(1, len(f) - 1):
            t = [c, r[f[0]], r[f[i]], r[f[i + 1]]]
            J = [[t[j + 1][k] - c[k] for k in range(3)] for j in range(3)]
            if fdet(J) < 0:              # convex reference shapes: orient every cone outwards
                t = [t[0], t[2], t[1], t[3]]
            out.append(t)
    return out


_MOM = {}


def ref_moment(sh, a):
    k = (sh.key, a)
    if k not in _MOM:
        _MOM[k] = abs_sign(sh) * sum(simplex_moment(t, a) for t in decomposition(sh))
    return _MOM[k]


def abs_sign(sh):
    v = sum(simplex_moment(t, (0,) * sh.dim) for t in decomposition(sh))
    return 1 if v > 0 else -1


def ref_measure(sh):
    return ref_moment(sh, (0,) * sh.dim)


def ref_bary(sh):
    m = ref_measure(sh)
    return [ref_moment(sh, tuple(1 if k == j else 0 for j in range(sh.dim))) / m for k in range(sh.dim)]


# ---------------------------------------------------------------- simplification under positivity facts
def posit(v, pos):
    """rewrite |p| -> p for the polynomials known to be positive, and decide gates on their sign"""
    facts = {}
    for p in pos:
        facts[alg.lt(0, p)] = True
        facts[alg.lt(p, 0)] = False
        facts[alg.eqb(p, 0)] = False

    def f(a, args):
        if a.kind in ("sqrt", "abs") and isinstance(args[0], CONST):
            return Fr(float(args[0]) ** 0.5) if a.kind == "sqrt" else abs(args[0])
        if a.kind == "abs":
            x = args[0]
            for p in pos:
                try:
                    q = alg.div(x, p)
                except alg.DivZero:
                    continue
                if is_const(q):
                    return alg.mul(abs(q), p)
        if a.kind == "var":
            return None
        return None
    if isinstance(v, CONST):
        return v
    v = alg.subst(v, f)
    pa = pos_atoms(pos)
    if pa and not isinstance(v, CONST):
        for b in alg.base_conds(alg.conds_of(v)):
            if b.op in ("lt0", "eq0"):
                r = alg.sign_under(b, pa)
                if r is not None:
                    facts[b] = r
    if pos and not isinstance(v, CONST):
        for b in alg.base_conds(alg.conds_of(v)):
            if b.op in ("lt0", "eq0") and b not in facts:
                r = alg.sign_by(b, pos)
                if r is not None:
                    facts[b] = r
    return alg.assume(v, facts) if not isinstance(v, CONST) else v


def pos_atoms(pos):
    out = set()
    for p in pos:
        if isinstance(p, alg.E) and not p.d and len(p.n) == 1:
            (m, c), = p.n.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                out.add(m[0][0])
    return out


def run_shape(tu, q, sh, extra=(), ov=None):
    o = dict(summaries())
    o.update(ov or {})
    return run_pos(tu, q, [sh.pts()] + list(extra), sh.pos, o)


def run_pos(tu, q, args, pos, ov=None):
    fs = tu.fns(q)
    if not fs:
        raise Und("probe %s does not compile against this tree" % q)
    I = vg.Interp(tu, ov)
    I.positive = pos_atoms(pos)
    I.pospoly = list(pos)
    for p in pos:
        I.learn(alg.lt(0, p))
        I.known[alg.lt(p, 0)] = False
        I.known[alg.eqb(p, 0)] = False
    a = [I.new(x) if isinstance(x, (Obj, Seq, Mat)) else x for x in args]
    return I, I.call_fn(fs[0], a)


def ptval(I, a):
    v = I.rd(a) if isinstance(a, (vg.Loc, vg.LIte)) else a
    return vec(v)


def summaries():
    """summaries of helper functions, each established by its own obligation (rule G01)"""
    def tri(I, e):
        P = [vec(I.deloc(I.ev(a))) for a in e["a"]]
        return ql.simplex_measure(P)
    return {"disk::area_triangle_kahan": tri, "disk::volume_tetrahedron_kahan": tri}


def sheared_rect():
    return Shape("cartesian-rectangle-2", "c2", [(0, 0), (2, 0), (0, 5), (2, 5)], [[0, 1], [0, 2], [1, 3], [2, 3]], "diag")


def sheared_box():
    return Shape("cartesian-box-2", "c3", [(2 * x, 3 * y, 7 * z) for x, y, z in CART3], CART3_F, "diag")
