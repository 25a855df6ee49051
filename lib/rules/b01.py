"""B01: polynomial bases span exactly the announced space, hierarchically, starting with the constant"""
import itertools
import front, alg, vg
from .sym import *
from . import blib as b
from .g01 import where_of

Fr = b.Fr


def xs(d): return [alg.var("x"), alg.var("y"), alg.var("z")][:d]


# key -> (mesh dimension, element, cartesian mesh, max degree quick, thorough)
CELLS = {"sc1": 1, "sc2": 2, "sc2i": 2, "sc3": 3, "sc3i": 3, "ss2": 2, "ss3": 3, "le2": 2, "le3": 3,
         "nc1": 1, "nc2": 2, "nc2n": 2, "nc3": 3}
FACES = {"sf1": 1, "sf2": 2, "sf3": 3, "lf2": 2, "lf3": 3, "nf1": 1, "nf2": 2, "nf3": 3}
NAMES = {"sc": "scaled monomial basis of a cell", "ss": "scaled monomial basis of a simplicial cell", "le": "Legendre basis of a cell",
         "nc": "basis::scalar_monomial of a cell", "sf": "scaled monomial basis of a face", "lf": "Legendre basis of a face",
         "nf": "basis::scalar_monomial of a face"}


def name(k):
    return "%s in %dD%s" % (NAMES[k[:2]], dict(CELLS, **FACES)[k], " with inertia axes" if k.endswith("i") else "")


def face_setup(k, d, conf):
    """(geometry, point on the face in local coordinates, local variables)"""
    cart = k.startswith("l")
    P = b.CART[d] if cart else b.MESHPTS[d]
    n = {1: 1, 2: 2, 3: 3}[d]
    if cart:
        F = [P[i] for i in ([0, 1] if d == 2 else [0, 1, 2, 3])]   # surfaces are sorted: the first one is {0,1,2,3} or {0,2,..}
    s, t = alg.var("s"), alg.var("t")
    g = b.concrete(d)
    return g, s, t


def run_face(tu, k, q, d, deg, conf):
    cart = k.startswith("l")
    pts = b.pts_of(d, cart)
    s, t = alg.var("s"), alg.var("t")
    I, fp = run(tu, "fpts_%s" % k, [pts])
    F = [vec(p) for p in fp.e]
    bar = [sum(f[i] for f in F) / Fr(len(F)) for i in range(d)]
    g = b.concrete(d)
    g.bar = bar
    if d == 1:
        x, loc = bar, []
    elif d == 2:
        T = [Fr(F[1][i]) - Fr(F[0][i]) for i in range(2)]
        g.h = alg.sqrt_(T[0] * T[0] + T[1] * T[1])
        x, loc = [alg.add(bar[i], alg.mul(s, T[i])) for i in range(2)], [s]
    else:
        T = [Fr(F[1][i]) - Fr(F[0][i]) for i in range(3)]
        U = [Fr(F[2][i]) - Fr(F[0][i]) for i in range(3)]
        tt, tu_ = sum(a * a for a in T), sum(a * c for a, c in zip(T, U))
        W = [u - tu_ / tt * a for u, a in zip(U, T)]
        N = [T[1] * W[2] - T[2] * W[1], T[2] * W[0] - T[0] * W[2], T[0] * W[1] - T[1] * W[0]]
        cols = [T, W, N]
        box = [Fr(3), Fr(7, 2), Fr(0)]
        perm = [(0, 1, 2), (2, 0, 1), (0, 2, 1)][conf]
        C = [cols[i] for i in perm]
        g.box = [box[i] for i in perm]
        unit = []
        for c in C:
            l = alg.sqrt_(sum(a * a for a in c))
            unit.append([alg.div(a, l) for a in c])
        g.axes = [[unit[j][i] for j in range(3)] for i in range(3)]
        x, loc = [alg.add(alg.add(bar[i], alg.mul(s, T[i])), alg.mul(t, W[i])) for i in range(3)], [s, t]
    I, v = b.call(tu, q, [pts, deg, cpt(x)], g.overrides())
    return b.tens(v), loc


def scal(tu, q, args, ov=None):
    I, v = b.call(tu, q, args, ov)
    return num_(v)


def num_(v): return int(vg.num(v))


def values(tu, k, deg, conf=0):
    if k in CELLS:
        d = CELLS[k]
        cart = k.startswith("le")
        pts = b.pts_of(d, cart)
        g = b.concrete(d)
        if k.startswith("nc1") or cart:
            g.axes = [[Fr(int(i == j)) for j in range(d)] for i in range(d)]
        if k in ("nc1",):
            P = b.MESHPTS[1]
            g.bar = [(P[0][0] + P[1][0]) / 2]
        if cart:
            g.box = [Fr(2), Fr(5), Fr(7)][:d]
            g.bar = [x / 2 for x in g.box]
            P = b.CART[d]
            g.box = [Fr(max(p[i] for p in P)) for i in range(d)]
            g.bar = [x / 2 for x in g.box]
        I, v = b.call(tu, k + "_fun", [pts, deg, cpt(xs(d))], g.overrides())
        return b.tens(v), xs(d)
    return run_face(tu, k, k + "_fun", FACES[k], deg, conf)


def size(tu, k, deg):
    d = dict(CELLS, **FACES)[k]
    g = b.concrete(d)
    I, v = b.call(tu, k + "_size", [b.pts_of(d, k[:2] in ("le", "lf")), deg], g.overrides())
    return num_(v)


def span(tu, j):
    k, deg, conf = j
    F, loc = values(tu, k, deg, conf)
    n = size(tu, k, deg)
    if len(F) != n:
        return False, "size() is %d but eval_functions returns %d functions (degree %d)" % (n, len(F), deg)
    R = b.rows(normal(F), loc)
    if b.degree_of(R) > deg:
        return False, "a function of the degree-%d basis has degree %d" % (deg, b.degree_of(R))
    E = b.full_space(1, len(loc), deg)
    m = b.same_space(R, E)
    if m:
        return False, "degree %d: %s" % (deg, m)
    if len(R[0]) != 1 or (0, (0,) * len(loc)) not in R[0]:
        return False, "the first function of the degree-%d basis is not the constant" % deg
    for dd in range(deg):
        if len(loc) == 0:
            break
        if b.degree_of(R[:len(b.full_space(1, len(loc), dd))]) > dd:
            return False, "the first functions do not form the basis of degree %d" % dd
    return True, "degree %d: %d functions span P^%d" % (deg, n, deg)


def normal(F):
    """strip a common irrational constant factor (normalisation) from each function"""
    return [[clean(c) for c in f] for f in F]


def clean(c):
    if isinstance(c, CONST):
        return c
    def f(a, args):
        if a.kind in ("sqrt", "abs") and isinstance(args[0], CONST):
            return Fr(float(args[0]) ** 0.5) if a.kind == "sqrt" else abs(args[0])
        return None
    return alg.subst(c, f)


def prefix(tu, j):
    k, deg = j
    A, _ = values(tu, k, deg)
    B, _ = values(tu, k, deg + 1)
    if len(B) < len(A):
        return False, "the basis of degree %d is smaller than the one of degree %d" % (deg + 1, deg)
    for i, (x, y) in enumerate(zip(A, B)):
        if not all(alg.eq(p, q) for p, q in zip(x, y)):
            return False, "function %d changes between degree %d and degree %d" % (i, deg, deg + 1)
    return True, "degree %d is a prefix of degree %d" % (deg, deg + 1)


def scaling(tu, j):
    """values are invariant under translation and dilation of element and point together"""
    k, deg = j
    d = CELLS[k]
    lam = alg.var("lam")
    sh = [alg.var("sh" + c) for c in "xyz"[:d]]
    g = b.symbolic(d)
    x = xs(d)
    I, A = b.call(tu, k + "_fun", [b.pts_of(d), deg, cpt(x)], g.overrides())
    g2 = b.symbolic(d)
    mv = lambda v: [alg.add(alg.mul(lam, p), q) for p, q in zip(v, sh)]
    g2.bar = mv(g.bar)
    g2.box = [alg.mul(lam, v) for v in g.box]
    g2.h = alg.mul(lam, g.h)
    g2.saxes = [[alg.div(v, lam) for v in r] for r in g.saxes]
    pts = vg.Seq([cpt(mv(vec(p))) for p in b.pts_of(d).e])
    I, B = b.call(tu, k + "_fun", [pts, deg, cpt(mv(x))], g2.overrides())
    pos = [lam]
    from . import geo
    for i, (p, q) in enumerate(zip(b.tens(A), b.tens(B))):
        if not alg.eq(geo.posit(p[0], pos), geo.posit(q[0], pos)):
            return False, "function %d depends on the absolute size or position of the element" % i
    return True, "degree %d: values depend only on the shape" % deg


def sizes(tu, j):
    q, args, exp = j
    v = run(tu, q, list(args))[1]
    v = num_(v)
    return v == exp, "%s%r = %d%s" % (q[2:], tuple(args), v, "" if v == exp else ", expected %d" % exp)


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def bound(tu, j):
    """integration_degree() and degree() bound the true degree; size_of_degree agrees with size()"""
    k, deg = j
    d = dict(CELLS, **FACES)[k]
    ov = b.concrete(d).overrides()
    F, loc = values(tu, k, deg)
    td = b.degree_of(b.rows(normal(F), loc))
    g = num_(b.call(tu, k + "_degree", [b.pts_of(d), deg], ov)[1])
    if k[0] == "n":
        i = num_(b.call(tu, k + "_ideg", [b.pts_of(d), deg], ov)[1])
        s = num_(b.call(tu, k + "_sizeof", [b.pts_of(d), deg], ov)[1])
        if s != len(F):
            return False, "size_of_degree(%d) is %d, the basis has %d functions" % (deg, s, len(F))
        if i < td:
            return False, "integration_degree() is %d for functions of degree %d" % (i, td)
    if g != deg:
        return False, "degree() returns %d for a basis of degree %d" % (g, deg)
    return True, "degree()=%d, true degree %d" % (g, td)


def legendre(tu, j):
    """orthonormality: on the cartesian cell, and of the 1D family on [-1,1]"""
    k, deg = j
    if k == "leg":
        I, v = leg(tu, "leg_fun", deg)
        fam = b.rows(normal(b.tens(v)), [alg.var("x")])
        dom = [(-1, 1)]
    else:
        F, loc = values(tu, k, deg)
        fam = b.rows(normal(F), loc)
        P = b.CART[CELLS[k]]
        dom = [(0, max(p[i] for p in P)) for i in range(CELLS[k])]
    mom = {}

    def integ(m):
        if m not in mom:
            r = Fr(1)
            for (lo, hi), e in zip(dom, m):
                r *= (Fr(hi) ** (e + 1) - Fr(lo) ** (e + 1)) / (e + 1)
            mom[m] = r
        return mom[m]
    for i, p in enumerate(fam):
        for l, q in enumerate(fam[:i + 1]):
            s = Fr(0)
            for (_, m), c in p.items():
                for (_, n), e in q.items():
                    s += c * e * integ(tuple(a + bb for a, bb in zip(m, n)))
            if abs(float(s) - (1 if i == l else 0)) > 1e-9:
                return False, "functions %d and %d of the degree-%d family are not orthonormal (product %.6g)" % (l, i, deg, float(s))
    return True, "degree %d: %d functions orthonormal" % (deg, len(fam))


def leg(tu, q, deg):
    f = tu.fns(q)[0]
    I = vg.Interp(tu)
    return I, I.call_fn(f, [deg, I.new(alg.var("x"))])


HARM = {"h20": (2, 0), "h21": (2, 1), "h22": (2, 2), "h23": (2, 3), "h30": (3, 0), "h31": (3, 1), "h32": (3, 2), "h33": (3, 3)}


def harmonic(tu, j):
    """P^m enriched with harmonic polynomials up to the degree: right degree, harmonic, independent, complete"""
    k, deg = j
    d, m = HARM[k]
    m = min(m, deg)
    g = b.concrete(d)
    g.axes = [[Fr(int(i == jj)) for jj in range(d)] for i in range(d)]
    I, v = b.call(tu, k + "_fun", [b.pts_of(d), deg, cpt(xs(d))], g.overrides())
    F = b.tens(v)
    n = num_(b.call(tu, k + "_size", [b.pts_of(d), deg], g.overrides())[1])
    if n != len(F):
        return False, "size() is %d, %d functions evaluated" % (n, len(F))
    R = b.rows(F, xs(d))
    if HARM[k][1] > deg:
        m = deg
    np_ = binom(m + d, d)
    nh = sum((2 if d == 2 else 2 * l + 1) for l in range(m + 1, deg + 1))
    if len(F) != np_ + nh:
        return False, "%d functions, expected %d polynomials and %d harmonics" % (len(F), np_, nh)
    x = [atom_of(v) for v in xs(d)]
    for i, f in enumerate(F):
        if i < np_:
            continue
        lap = 0
        for a in x:
            lap = alg.add(lap, alg.diff(alg.diff(f[0], a), a))
        if not alg.eq(lap, 0):
            return False, "function %d of the degree-%d basis is not harmonic" % (i, deg)
    if b.degree_of(R) > deg:
        return False, "a function has degree %d > %d" % (b.degree_of(R), deg)
    bad = b.same_space(R[:np_], b.full_space(1, d, m))
    if bad:
        return False, "polynomial part: " + bad
    if b.rank(R) != len(R):
        return False, "the functions of the degree-%d basis are linearly dependent" % deg
    return True, "degree %d: P^%d + %d harmonics" % (deg, m, nh)


# polygonal faces with flat vertices (hanging nodes) and needles, in some plane of space
POLYS = {"square": [(0, 0), (2, 0), (2, 2), (0, 2)], "flat vertex 0": [(1, 0), (2, 0), (2, 2), (0, 2), (0, 0)],
         "flat vertex 1": [(0, 0), (1, 0), (2, 0), (2, 2), (0, 2)], "flat vertex 2": [(0, 2), (0, 0), (1, 0), (2, 0), (2, 2)],
         "flat vertices 1 and 2": [(0, 0), (1, 0), (2, 0), (3, 0), (3, 3), (0, 3)],
         "flat vertices 0, 1 and 3": [(1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (0, 2), (0, 0)],
         "needle, obtuse at vertex 0": [(0, 0), (112, -15), (-112, -15)], "needle, obtuse at vertex 1": [(-112, -15), (0, 0), (112, -15)],
         "needle, obtuse at vertex 2": [(112, -15), (-112, -15), (0, 0)]}
PF = {"pt3": "tangential basis of a face", "pn3": "basis::scalar_monomial of a face"}


def polyface(tu, j):
    """face bases on every admissible polygon: the announced space, whatever the first vertices look like"""
    k, shape, deg = j
    R3 = b.ROT[3]
    P = [[R3[i][0] * p[0] + R3[i][1] * p[1] + (Fr(1, 2), Fr(-1, 3), Fr(2, 7))[i] for i in range(3)] for p in POLYS[shape]]
    pts = vg.Seq([cpt([Fr(c) for c in p]) for p in P])
    s, t = alg.var("s"), alg.var("t")
    g = b.concrete(3)
    n = len(P)
    g.bar = [sum(p[i] for p in P) / Fr(n) for i in range(3)]
    x = [alg.add(g.bar[i], alg.add(alg.mul(s, R3[i][0]), alg.mul(t, R3[i][1]))) for i in range(3)]
    try:
        I, v = b.call(tu, k + "_fun", [pts, deg, cpt(x)], g.overrides())
        F = b.tens(v)
        if any(alg.has_nan(c) for f in F for c in f):
            raise ZeroDivisionError
    except (ZeroDivisionError, alg.DivZero, vg.Singular, vg.Und) as e:
        if type(e) is vg.Und and "division by zero" not in str(e):
            raise
        return False, "the reference frame of the face is degenerate (division by zero)"
    except vg.OutOfBounds as e:
        return False, str(e)
    if k == "pt3":                       # components in the frame of the face: the normal one vanishes
        F = [[alg.add(alg.add(alg.mul(R3[0][j], f[0]), alg.mul(R3[1][j], f[1])), alg.mul(R3[2][j], f[2])) for j in range(3)] for f in F]
        if any(not alg.eq(f[2], 0) for f in F):
            return False, "a function is not tangential"
        F = [f[:2] for f in F]
    R = b.rows(F, [s, t])
    bad = b.same_space(R, b.full_space(len(F[0]), 2, deg))
    if bad:
        return False, "degree %d: %s" % (deg, bad)
    return True, "degree %d" % deg


def main(rep):
    tu = front.export(front.PROBES + "/bases.cpp")
    hi = 6 if rep.tier == "thorough" else 4
    J = []
    for k, d in CELLS.items():
        for deg in range((hi if d < 3 else min(hi, 5)) + 1):
            J.append((span, "span/%s/%d" % (k, deg), (k, deg, 0), k))
            J.append((bound, "degree/%s/%d" % (k, deg), (k, deg), k))
        for deg in range(3):
            if not k.startswith("le"):
                J.append((scaling, "scaling/%s/%d" % (k, deg), (k, deg), k))
            J.append((prefix, "hierarchical/%s/%d" % (k, deg), (k, deg), k))
    for k, d in FACES.items():
        for deg in range(hi + 1):
            if d == 1 and deg > 0:
                break
            for conf in range(3 if d == 3 and k == "sf3" else 1):
                J.append((span, "span/%s/%d/%d" % (k, deg, conf), (k, deg, conf), k))
        if d > 1:
            for deg in range(3):
                J.append((prefix, "hierarchical/%s/%d" % (k, deg), (k, deg), k))
                J.append((bound, "degree/%s/%d" % (k, deg), (k, deg), k))
    for k in ("le2", "le3"):
        for deg in range(min(hi, 5) + 1):
            J.append((legendre, "orthonormal/%s/%d" % (k, deg), (k, deg), k))
    for deg in range(11):
        J.append((legendre, "orthonormal/leg/%d" % deg, ("leg", deg), "leg"))
    for k in PF:
        for shape in POLYS:
            for deg in (1, 2) if hi < 6 else (0, 1, 2, 3):
                J.append((polyface, "polygon/%s/%s/%d" % (k, shape.replace(",", "").replace(" ", "-"), deg), (k, shape, deg), k))
    for k in HARM:
        for deg in range(1, hi + 1):
            J.append((harmonic, "harmonic/%s/%d" % (k, deg), (k, deg), k))
    for d in (1, 2, 3):
        for kk in range(9):
            J.append((sizes, "size/scalar/%d/%d" % (kk, d), ("f_ssize", (kk, d), binom(kk + d, d)), None))
    tus = tu
    res = pmap(lambda t: t[0](tus, t[2]), J)
    for (f, oid, a, k), r in zip(J, res):
        q = (k + "_fun") if k else a[0]
        title = PF[k] if k in PF else {"leg": "legendre_1D", None: "basis size"}.get(k) or ("harmonic-enriched basis in %sD" % k[1] if k in HARM else name(k))
        collect(rep, oid, where_of(tu, q), r, title)
    return rep.finish(
        "eval_functions is interpreted with a symbolic point; the resulting exact polynomials are compared with the announced "
        "space by exact linear algebra over Q (size, degree, rank, constant first, degree-k family is the prefix of degree k+1, "
        "invariance under dilation and translation, orthonormality of Legendre families, harmonicity)",
        ["exact real arithmetic (normalisation constants rounded to double)", "degrees 0..%d; the loops are the same for every degree" % hi],
        analysed={"bases": sorted(set(CELLS) | set(FACES) | set(HARM) | set(PF)), "functions": len(tu.functions)})
