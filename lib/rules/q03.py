"""Q03: integrate(mesh, element, degree) is exact on physical elements"""
import front, alg, vg
from .sym import *
from . import geo
from . import quadlib as ql
from .g01 import area_vec, dist, where_of

TOL = 2e-11


def ears(ref):
    """a triangulation of a simple CCW polygon by ear clipping (reference coordinates)"""
    idx = list(range(len(ref)))
    out = []

    def cr(a, b, c):
        a, b, c = ref[a], ref[b], ref[c]
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    while len(idx) > 3:
        for k in range(len(idx)):
            a, b, c = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            if cr(a, b, c) <= 0:
                continue
            if any(p not in (a, b, c) and cr(a, b, p) >= 0 and cr(b, c, p) >= 0 and cr(c, a, p) >= 0 for p in idx):
                continue
            out.append((a, b, c))
            del idx[k]
            break
        else:
            raise Und("no ear")
    out.append(tuple(idx))
    return out


def mesher(sh):
    """summary of the external mesh generator: triangulates the polygon handed over in tio_in"""
    def h(I, e):
        a = [I.ev(x) for x in e["a"]]
        opt = a[0].s if isinstance(a[0], vg.Str) else "zpQ"
        tin = I.rd(I.deref(a[1]))
        n = vg.num(tin.f["numberofpoints"])
        ns = vg.num(tin.f["numberofsegments"])
        if n != len(sh.ref):
            return bad(I, "the mesh generator is given %s points" % n)
        xs = [vg.num(I.rd(I.ptr_add(tin.f["pointlist"], i).loc)) for i in range(2 * n)]
        sg = [vg.num(I.rd(I.ptr_add(tin.f["segmentlist"], i).loc)) for i in range(2 * ns)]
        off = 0 if "z" in opt else 1
        segs = {frozenset((sg[2 * i] - off, sg[2 * i + 1] - off)) for i in range(ns)}
        P = [sh.preimage(xs[2 * i:2 * i + 2]) for i in range(n)]
        if any(p is None for p in P) or "p" not in opt:
            return bad(I, "the mesh generator is not given the polygon")
        R = [tuple(float(c) for c in r) for r in sh.ref]
        if not all(abs(x - float(y)) < 1e-12 for p, r in zip(P, R) for x, y in zip(p, r)) or \
           segs != {frozenset((i, (i + 1) % n)) for i in range(n)}:
            return bad(I, "the mesh generator is not given the polygon")
        tri = ears(sh.ref)
        out = I.deref(a[2])
        o = I.rd(out)
        f = dict(o.f)
        f["pointlist"] = vg.Ptr(I.new(vg.Seq(xs)).sub(0))
        f["numberofpoints"] = n
        f["trianglelist"] = vg.Ptr(I.new(vg.Seq([v + off for t in tri for v in t])).sub(0))
        f["numberoftriangles"] = len(tri)
        I.wr(out, vg.Obj(o.cls, f))
        return None

    def bad(I, msg):
        raise vg.OutOfBounds(msg)
    return h


def moments_ok(nodes, wts, deg, dim, exact, measure):
    """nodes in reference coordinates, weights relative; exact(a) -> exact reference moment"""
    N = [[float(x) for x in n] for n in nodes]
    W = [float(w) for w in wts]
    worst, arg = 0, None
    # centre and scale the coordinates so that the relative defect is meaningful
    for a in monomials(dim, deg):
        s = []
        for n, w in zip(N, W):
            t = w
            for k in range(dim):
                t *= n[k] ** a[k]
            s.append(t)
        ex = float(exact(a))
        ref = max(math.fsum(map(abs, s)), abs(ex), 1e-300)
        d = abs(math.fsum(s) - ex) / ref
        if d > worst:
            worst, arg = d, a
    return worst, arg


def cell(tu, sh, deg):
    ov = {"triangulate()": mesher(sh), "trifree()": lambda I, e: vg.UN}
    I, r = geo.run_shape(tu, sh.pre + "_cquad", sh, [deg], ov)
    return rule_ok(sh, r, deg)


def rule_ok(sh, r, deg):
    if not isinstance(r, Seq):
        raise Und("result is not a list")
    if not r.e:
        return False, "the rule has no points"
    nodes, wts = [], []
    for q in r.e:
        x, w = qp(q)
        x = [geo.posit(c, sh.pos) for c in x]
        if any(isinstance(c, alg.E) and c.d for c in x):
            raise Und("node is not polynomial")
        u = sh.preimage(x)
        if u is None:
            return False, "a node is not an affine image of a fixed reference point"
        w = geo.posit(w, sh.pos)
        k = alg.div(w, sh.det)
        if not is_const(k):
            k = try_ratio(w, sh.det)
        if k is None:
            return None, "weight not resolved: %s" % alg.show(w)[:160]
        nodes.append(u)
        wts.append(k)
    d, a = moments_ok(nodes, wts, deg, sh.dim, lambda a: geo.ref_moment(sh, a), geo.ref_measure(sh))
    if d > TOL:
        return False, "degree %d: the monomial %s is not integrated exactly (%d points, relative defect %.1e)" % (deg, a, len(nodes), d)
    return True, "%d points, worst moment defect %.1e" % (len(nodes), d)


def try_ratio(w, m):
    k = ql.measure_ratio(w, m)
    return k


def face(tu, sh, i, deg):
    I, r = geo.run_shape(tu, sh.pre + "_fquad", sh, [i, deg])
    I, p = geo.run_shape(tu, sh.pre + "_fpts", sh, [i])
    P = [vec(x) for x in p.e]
    f = [[Fraction(c).limit_denominator(10**6) for c in sh.preimage(x)] for x in P]
    if sh.dim == 1:
        x, w = qp(r.e[0])
        ok = len(r.e) == 1 and w == 1 and alg.eq(x[0], P[0][0])
        return (True, "one point of weight one") if ok else (False, "the rule of a 1D face is not the point itself with weight one")
    if sh.dim == 2:
        size = geo.posit(dist(P[0], P[1]), sh.pos)
    else:
        a = area_vec(P)
        size = geo.posit(alg.sqrt_(ql.sum_([alg.mul(x, x) for x in a])), sh.pos)
    loc = local_frame(f)
    nodes, wts = [], []
    for q in r.e:
        x, w = qp(q)
        u = sh.preimage([geo.posit(c, sh.pos) for c in x])
        if u is None:
            return False, "a node is not an affine image of a fixed reference point"
        s = loc(u)
        if s is None:
            return False, "a node is not on the face"
        w = geo.posit(w, sh.pos)
        try:
            k = alg.div(w, size)
        except alg.DivZero:
            k = None
        if k is None or not is_const(k):
            k = ql.measure_ratio(w, size)
        if k is None:
            return None, "weight not resolved: %s" % alg.show(w)[:160]
        nodes.append(s)
        wts.append(k)
    if not nodes:
        return False, "the rule has no points"
    lf = [[Fraction(c).limit_denominator(10**6) for c in loc([float(c) for c in v])] for v in f]
    if sh.dim == 2:
        ex = lambda a: Fraction(1, a[0] + 1)
        d = 1
    else:
        tris = [[lf[0], lf[k], lf[k + 1]] for k in range(1, len(lf) - 1)]
        area = sum(geo.simplex_moment(t, (0, 0)) for t in tris)
        ex = lambda a: sum(geo.simplex_moment(t, a) for t in tris) / area
        d = 2
    e, a = moments_ok(nodes, wts, deg, d, ex, 1)
    if e > TOL:
        return False, "degree %d: the monomial %s is not integrated exactly on the face (%d points, relative defect %.1e)" % (deg, a, len(nodes), e)
    return True, "%d points, worst moment defect %.1e" % (len(nodes), e)


def local_frame(f):
    o = [float(c) for c in f[0]]
    if len(f) == 2:
        d = [float(f[1][k]) - o[k] for k in range(len(o))]
        n2 = sum(c * c for c in d)

        def loc(u):
            t = sum((float(u[k]) - o[k]) * d[k] for k in range(len(o))) / n2
            if any(abs(o[k] + t * d[k] - float(u[k])) > 1e-10 for k in range(len(o))):
                return None
            return [t]
        return loc
    e1 = [float(f[1][k]) - o[k] for k in range(3)]
    e2 = [float(f[-1][k]) - o[k] for k in range(3)]
    a11, a12, a22 = sum(c * c for c in e1), sum(x * y for x, y in zip(e1, e2)), sum(c * c for c in e2)
    det = a11 * a22 - a12 * a12

    def loc(u):
        v = [float(u[k]) - o[k] for k in range(3)]
        b1, b2 = sum(x * y for x, y in zip(v, e1)), sum(x * y for x, y in zip(v, e2))
        s, t = (b1 * a22 - b2 * a12) / det, (a11 * b2 - a12 * b1) / det
        if any(abs(s * e1[k] + t * e2[k] - v[k]) > 1e-10 for k in range(3)):
            return None
        return [s, t]
    return loc


# ---------------------------------------------------------------- arbitrary convex quadrilaterals (not affine images)
def quad(tu, deg):
    P = [mkpt("p%d" % i, 2) for i in range(4)]
    X = [vec(p) for p in P]
    # convex, counterclockwise: every corner turns left
    pos = []
    for i in range(4):
        a, b, c = X[i], X[(i + 1) % 4], X[(i + 2) % 4]
        pos.append(alg.sub(alg.mul(alg.sub(b[0], a[0]), alg.sub(c[1], b[1])), alg.mul(alg.sub(b[1], a[1]), alg.sub(c[0], b[0]))))
    I, r = geo.run_pos(tu, "g2_cquad", [Seq(P), deg], pos, geo.summaries())
    if not isinstance(r, Seq) or not r.e:
        raise Und("no list of points")
    at = [[atom_of(X[v][k]) for v in range(4)] for k in range(2)]
    # bilinear rule?
    nodes, wts = [], []
    for q in r.e:
        x, w = qp(q)
        cs = [lin_coeffs(x[k], at[k])[0] for k in range(2)]
        if any(abs(float(a - b)) > 1e-12 for a, b in zip(*cs)):
            return False, "a node treats the coordinates differently"
        n = [float(c) for c in cs[0]]
        if abs(sum(n) - 1) > 1e-12:
            return False, "a node is not an affine combination of the vertices"
        # shape functions (1-s)(1-t), s(1-t), st, (1-s)t
        s, t = n[1] + n[2], n[2] + n[3]
        shp = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
        if any(abs(a - b) > 1e-11 for a, b in zip(n, shp)):
            return pieces(r, at, X, deg)
        S, Tt = Fraction(s), Fraction(t)
        g = lambda k: (alg.add(alg.mul(1 - Tt, alg.sub(X[1][k], X[0][k])), alg.mul(Tt, alg.sub(X[2][k], X[3][k]))),
                       alg.add(alg.mul(1 - S, alg.sub(X[3][k], X[0][k])), alg.mul(S, alg.sub(X[2][k], X[1][k]))))
        (xs, xt), (ys, yt) = g(0), g(1)
        J = alg.sub(alg.mul(xs, yt), alg.mul(ys, xt))
        k = w_over(w, J)
        if k is None:
            return False, "the weight of the node (%.4f,%.4f) is not a constant times the jacobian of the bilinear map: %s" % (s, t, alg.show(w)[:120])
        nodes.append((s, t))
        wts.append(k)
    worst, arg = 0, None
    for a in range(deg + 2):
        for b in range(deg + 2):
            if a == deg + 1 and b == deg + 1:
                continue
            v = math.fsum(w * s ** a * t ** b for (s, t), w in zip(nodes, wts))
            e = abs(v - 1 / ((a + 1) * (b + 1)))
            if e > worst:
                worst, arg = e, (a, b)
    if worst > TOL:
        return False, ("degree %d: on a general convex quadrilateral the integrand times the jacobian contains s^%d t^%d, which "
                       "the %d-point rule does not integrate (defect %.1e)" % (deg, arg[0], arg[1], len(nodes), worst))
    return True, "%d points, bilinear map, worst defect %.1e" % (len(nodes), worst)


def w_over(w, J):
    """constant k with w = k |J| up to rounding of literals"""
    pw = absform(w)
    if pw is None:
        pw = w
    try:
        a, b = poly(pw), poly(J)
    except Und:
        return None
    if not b:
        return None
    m = max(b, key=lambda x: abs(float(b[x])))
    k = float(a.get(m, 0)) / float(b[m])
    if k == 0:
        return None
    if any(abs(float(a.get(x, 0)) - k * float(b.get(x, 0))) > 1e-11 * abs(k) for x in set(a) | set(b)):
        return None
    return abs(k)


def pieces(r, at, X, deg):
    return None, "the rule is not a mapped tensor rule"


def one(tu, j):
    kind, sh, i, deg = j
    if kind == "quad":
        return quad(tu, deg)
    if kind == "cell":
        return cell(tu, sh, deg)
    return face(tu, sh, i, deg)


def main(rep):
    tu = front.export(front.PROBES + "/geom.cpp", extra=["-UNDEBUG"])
    th = rep.tier == "thorough"
    J = []
    for sh in geo.shapes() + geo.nonconvex_shapes() + [geo.sheared_rect(), geo.sheared_box()]:
        top = (12 if sh.dim < 3 else 8) if th else (8 if sh.dim < 3 else 5)
        if sh.pre in ("gc", "gp"):
            top = 5 if th else 4
        for d in range(top + 1):
            J.append(("cell", sh, None, d))
            if sh.convex:
                fs = range(len(sh.faces)) if d in (0, 1, 3) or th else range(0, len(sh.faces), 3)
                for i in fs:
                    J.append(("face", sh, i, d))
    for d in range(13 if th else 9):
        J.append(("quad", None, None, d))
    order = sorted(range(len(J)), key=lambda k: -J[k][3])
    res = pmap(lambda k: one(tu, J[k]), order)
    for k, r in sorted(zip(order, res)):
        kind, sh, i, d = J[k]
        oid = "%s/%s%s/degree-%d" % (kind, "convex-quadrilateral" if sh is None else sh.key, "" if i is None else "/face-%d" % i, d)
        q = "g2_cquad" if sh is None else "%s_%s" % (sh.pre, "cquad" if kind == "cell" else "fquad")
        collect(rep, oid, where_of(tu, q), r, "quadrature of a %s" % ("convex quadrilateral" if sh is None else sh.key))
    return rep.finish(
        "integrate(mesh, element, degree) is interpreted abstractly on single-element meshes with symbolic affine images of "
        "reference shapes (and on general convex quadrilaterals with four symbolic vertices): every node must be the image "
        "of a fixed reference node, every weight a constant times the measure (or the bilinear jacobian), and the constant "
        "reference rule must have all exact moments up to the degree within %.0e" % TOL,
        ["exact real arithmetic", "the external triangulator (Shewchuk's Triangle) is replaced by an ear-clipping summary of "
         "its documented contract; what the library hands over and reads back is analysed"],
        analysed={"functions": sorted({tu.where(f) for f in tu.functions if front.short(f["q"]) == "integrate" and "body" in f})})
