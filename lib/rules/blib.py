"""Polynomial bases: opaque symbolic geometry and exact linear algebra on polynomial families"""
from fractions import Fraction
import alg, vg
from .sym import *

Fr = Fraction
MESHPTS = {
    1: [(Fr(1),), (Fr(4),)],
    2: [(Fr(0), Fr(0)), (Fr(3), Fr(4)), (Fr(-1), Fr(6))],
    3: [(Fr(0), Fr(0), Fr(0)), (Fr(2), Fr(0), Fr(0)), (Fr(1), Fr(3), Fr(0)), (Fr(1), Fr(1), Fr(5))],
}
CART = {2: [(0, 0), (2, 0), (0, 5), (2, 5)], 3: [(2 * x, 3 * y, 7 * z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]}


def tdim(tu, e):
    """dimension of the mesh behind the geometry call e (from its first argument's type)"""
    import re
    t = tu.T(e["a"][0].get("t", -1))
    m = re.search(r"mesh<[^,]+(?:<[^>]*>)?, (\d)", t) or re.search(r", (\d),", t)
    if not m:
        raise Und("mesh dimension of " + t[:80])
    return int(m.group(1))


class Geo:
    """values of the geometric quantities an element's basis may depend on"""

    def __init__(self, d, bar, box, axes, h, saxes, face=False):
        self.d, self.bar, self.box, self.axes, self.h, self.saxes = d, bar, box, axes, h, saxes

    def overrides(self):
        def mat(I, e):
            return vg.Mat(self.d, self.d, [x for r in self.axes for x in r])

        def smat(I, e):
            return vg.Mat(self.d, self.d, [x for r in self.saxes for x in r])
        return {
            "disk::barycenter": lambda I, e: cpt(self.bar),
            "disk::inertia_axes": mat,
            "disk::scaled_inertia_axes": smat,
            "disk::element_local_axes": smat,
            "disk::diameter_boundingbox": lambda I, e: vg.Seq(list(self.box)),
            "disk::diameters": lambda I, e: vg.Mat(self.d, 1, list(self.box)),
            "disk::diameter": lambda I, e: self.h,
            "disk::measure": lambda I, e: alg.var("meas"),
        }


def symbolic(d):
    v = alg.var
    ax = [[v("R%d%d" % (i, j)) for j in range(d)] for i in range(d)]
    sx = [[v("S%d%d" % (i, j)) for j in range(d)] for i in range(d)]
    return Geo(d, [v("b" + "xyz"[i]) for i in range(d)], [v("L" + "xyz"[i]) for i in range(d)], ax, v("hh"), sx)


ROT = {1: [[Fr(1)]], 2: [[Fr(3, 5), Fr(-4, 5)], [Fr(4, 5), Fr(3, 5)]],
       3: [[Fr(1, 3), Fr(2, 3), Fr(-2, 3)], [Fr(2, 3), Fr(1, 3), Fr(2, 3)], [Fr(2, 3), Fr(-2, 3), Fr(-1, 3)]]}


def concrete(d, box=None, axes=None):
    r = axes or ROT[d]
    return Geo(d, [Fr(1, 2), Fr(-1, 3), Fr(2, 7)][:d], box or [Fr(3), Fr(5, 2), Fr(7)][:d], r, Fr(9, 2),
               [[x * s for x, s in zip(row, [Fr(2), Fr(3), Fr(5)])] for row in r])


def pts_of(d, cart=False):
    P = CART[d] if cart else MESHPTS[d]
    return vg.Seq([cpt([Fr(c) for c in p]) for p in P])


def call(tu, q, args, ov=None):
    o = dict(ov or {})
    return run(tu, q, args, o)


# ------------------------------------------------------------------ polynomial families
def poly_in(e, vars_):
    """{exponent tuple: Fraction} of a value that is a polynomial in vars_ with rational coefficients"""
    ids = {list(poly(v))[0][0][0]: i for i, v in enumerate(vars_)}
    out = {}
    for m, c in poly(e).items():
        ex = [0] * len(vars_)
        for a, k in m:
            if a not in ids:
                raise Und("depends on something else than the point")
            ex[ids[a]] += k
        t = tuple(ex)
        out[t] = out.get(t, 0) + Fr(c)
    return {k: v for k, v in out.items() if v != 0}


def rows(fns, vars_):
    """families of tensors -> list of {(component, exponents): coeff}"""
    out = []
    for f in fns:
        r = {}
        for i, c in enumerate(f):
            for m, v in poly_in(c, vars_).items():
                r[(i, m)] = v
        out.append(r)
    return out


def rank(rws, tol=0):
    """rank of sparse rational rows"""
    piv = []
    n = 0
    for r in rws:
        r = dict(r)
        for k, p in piv:
            if k in r:
                f = r[k]
                for kk, v in p.items():
                    x = r.get(kk, 0) - f * v
                    if x == 0 or (tol and abs(x) < tol):
                        r.pop(kk, None)
                    else:
                        r[kk] = x
        if not r:
            continue
        k = max(r, key=lambda q: (abs(r[q]), str(q)))
        f = r[k]
        piv.append((k, {kk: v / f for kk, v in r.items()}))
        n += 1
    return n


def degree_of(rws):
    return max([sum(m) for r in rws for (_, m) in r] + [0])


def full_space(nc, nv, k, units=None):
    """generators of [P^k(R^nv)]^nc (or of P^k times the given constant tensors)"""
    U = units or [[1 if i == j else 0 for i in range(nc)] for j in range(nc)]
    out = []
    for m in monomials(nv, k):
        for u in U:
            out.append({(i, m): Fr(c) for i, c in enumerate(u) if c})
    return out


def same_space(A, B, tol=0):
    """None if the families span the same space, else a description"""
    ra, rb, rab = rank(A, tol), rank(B, tol), rank(A + B, tol)
    if ra != len(A):
        return "the %d functions are linearly dependent (rank %d)" % (len(A), ra)
    if ra != rb:
        return "the functions span a space of dimension %d, not %d" % (ra, rb)
    if rab != ra:
        return "the functions do not span the announced space"
    return None


def tens(v):
    """flatten a vector/matrix valued family: Mat with one row per function, or Seq of matrices"""
    if isinstance(v, vg.Seq):
        return [[vg.num(x) for x in m.e] for m in v.e]
    if isinstance(v, vg.Mat):
        return [[vg.num(v.e[i * v.c + j]) for j in range(v.c)] for i in range(v.r)]
    return [[vg.num(v)]]
