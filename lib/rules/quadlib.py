"""Exactness of a reference quadrature rule, read off the abstract result of the rule function."""
import math
import alg, vg, front
from .sym import *

TOL = 2e-12

# wrapper -> (vertices, dim, degree bound symbol or number, public function)
RULES = {
    "q_dunavant":  (3, 2, 20, "dunavant (triangle, 2D)"),
    "q_dunavant3": (3, 3, 20, "dunavant (triangle, 3D)"),
    "q_trigauss":  (3, 2, "qmax_trigauss", "triangle_gauss (2D)"),
    "q_trigauss3": (3, 3, "qmax_trigauss", "triangle_gauss (3D)"),
    "q_gm2":       (3, 2, 12, "grundmann_moeller (triangle)"),
    "q_gm3":       (4, 3, 12, "grundmann_moeller (tetrahedron)"),
    "q_arbq":      (4, 3, 15, "arbq (tetrahedron)"),
    "q_deftet":    (4, 3, 15, "default_tetrahedron_quadrature"),
    "q_gl2":       (2, 2, "qmax_gauss", "gauss_legendre (segment, 2D)"),
    "q_gl3":       (2, 3, "qmax_gauss", "gauss_legendre (segment, 3D)"),
    "q_gl1p":      (2, 1, "qmax_gauss", "gauss_legendre (segment, 1D)"),
    "q_lob2":      (2, 2, 37, "gauss_lobatto (segment, 2D)"),
    "q_lob1p":     (2, 1, 37, "gauss_lobatto (segment, 1D)"),
}
SCALAR = {"q_gl1": ("qmax_gauss", "gauss_legendre (interval)"), "q_lob1": (37, "gauss_lobatto (interval)")}


def maxdeg(tu, m):
    if isinstance(m, int):
        return m
    g = [x for x in tu.globals if x["q"] == m]
    if not g:
        raise front.AnalysisError("probe constant %s missing" % m)
    return int(g[0]["init"]["v"]) if "v" in g[0]["init"] else vg.Interp(tu).ev(g[0]["init"])


def simplex_measure(P):
    """oracle: measure of the simplex with vertices P (lists of components)"""
    n, dim = len(P), len(P[0])
    d = [[alg.sub(p[k], P[0][k]) for k in range(dim)] for p in P[1:]]
    g = vg.Mat(n - 1, n - 1, [sum_([alg.mul(a[k], b[k]) for k in range(dim)]) for a in d for b in d])
    if n - 1 == dim:
        return alg.mul(alg.div(1, math.factorial(n - 1)),
                       alg.abs_(vg.mdet(vg.Mat(dim, dim, [x for r in d for x in r]))))
    return alg.mul(alg.div(1, math.factorial(n - 1)), alg.sqrt_(vg.mdet(g)))


def sum_(xs):
    r = 0
    for x in xs:
        r = alg.add(r, x)
    return r


def moment_defect(bary, w, deg):
    """largest relative error over all monomials of degree <= deg in the first n-1 barycentric coordinates
    (weights relative to the measure)"""
    n = len(bary[0])
    d = n - 1
    worst, arg = 0.0, None
    L = [[float(x) for x in b[1:]] for b in bary]
    W = [float(x) for x in w]
    pw = [[[l[k] ** e for l in L] for e in range(deg + 1)] for k in range(d)]
    for a in monomials(d, deg):
        t = W
        for k in range(d):
            if a[k]:
                t = [x * y for x, y in zip(t, pw[k][a[k]])]
        s = math.fsum(t)
        ex = math.factorial(d)
        for x in a:
            ex *= math.factorial(x)
        ex /= math.factorial(d + sum(a))
        e = abs(s - ex) / max(math.fsum(map(abs, t)), ex)
        if e > worst:
            worst, arg = e, a
    return worst, arg


def analyse(tu, wname, nv, dim, deg, scalar=False):
    """-> ('throw', where) | ('rule', n, defect, arg, problem)"""
    if scalar:
        P = [[alg.var("a")], [alg.var("b")]]
        args = [deg, P[0][0], P[1][0]]
    else:
        pts = [mkpt("p%d" % i, dim) for i in range(nv)]
        P = [vec(p) for p in pts]
        args = [deg] + pts
    try:
        I, r = run(tu, wname, args)
    except Thrown as t:
        return ("throw", t.where)
    if not isinstance(r, Seq):
        raise Und("result is not a list of points")
    if not r.e:
        return ("rule", 0, 1.0, (), "the rule has no points")
    atoms = [[atom_of(P[v][k]) for v in range(nv)] for k in range(dim)]
    bary, wts = [], []
    for q in r.e:
        x, w = qp(q)
        cs = []
        for k in range(dim):
            c, c0 = lin_coeffs(x[k], atoms[k])
            if abs(c0) > TOL:
                return ("rule", len(r.e), 1.0, (), "a node is not a combination of the vertices")
            cs.append(c)
        for k in range(1, dim):
            if any(abs(a - b) > TOL for a, b in zip(cs[0], cs[k])):
                return ("rule", len(r.e), 1.0, (), "a node treats the coordinates differently")
        if abs(sum(cs[0]) - 1) > TOL:
            return ("rule", len(r.e), 1.0, (), "barycentric coordinates of a node do not sum to one")
        bary.append(cs[0])
        wts.append(w)
    meas = alg.sub(P[1][0], P[0][0]) if scalar else simplex_measure(P)
    # every weight is constant * measure
    i0 = max(range(len(wts)), key=lambda i: 0 if is_const(wts[i]) else 1)
    w0 = wts[i0]
    rel = []
    for w in wts:
        q_ = alg.div(w, w0)
        if not is_const(q_):
            return ("rule", len(r.e), 1.0, (), "weights are not multiples of one measure")
        rel.append(q_)
    scale = None
    for lits, v in simplify_cases(w0):
        k = measure_ratio(v, meas)
        if k is None:
            return ("rule", len(r.e), 1.0, (), "weights are not multiples of the measure of the domain")
        if scale is None:
            scale = k
        elif abs(scale - k) > TOL:
            return ("rule", len(r.e), 1.0, (), "the weight depends on the vertex order")
    w = [float(x) * float(scale) for x in rel]
    worst, arg = moment_defect(bary, w, deg)
    return ("rule", len(r.e), worst, arg, None)


def measure_ratio(v, meas):
    try:
        q = alg.div(v, meas)
        if is_const(q):
            return float(q)
        a, b = absform(v), absform(meas)
        if a is not None and b is not None:
            pa, pb = poly(a), poly(b)
            m = next(iter(pb))
            k = abs(float(pa.get(m, 0) / pb[m]))
            if k and (pclose(a, alg.mul(Fraction(k), b), TOL) or pclose(alg.mul(-1, a), alg.mul(Fraction(k), b), TOL)):
                return k
        # squares (sqrt of a polynomial)
        q2 = alg.div(alg.mul(v, v), alg.mul(meas, meas))
        if is_const(q2):
            return math.sqrt(float(q2))
    except (Und, alg.TooBig, alg.DivZero):
        pass
    return None


def rule_where(tu, w):
    f = tu.fns(w)[0] if tu.fns(w) else None
    if f:
        for c in front.calls(f["body"]):
            g = tu.byid.get(c.get("fn"))
            if g and "quadratures" in tu.file(g):
                return tu.where(g)
    return w
