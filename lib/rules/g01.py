"""G01: measures, barycenters and diameters"""
import front, alg, vg
from .sym import *
from . import geo
from . import quadlib as ql


def jobs():
    J = [("kahan2", None, None), ("kahan3", None, None), ("tet", None, None)]
    for sh in geo.shapes() + geo.nonconvex_shapes():
        J.append(("cmeas", sh, None))
        J.append(("cbar", sh, None))
        if sh.convex:
            J.append(("cdiam", sh, None))
            for i in range(len(sh.faces)):
                J.append(("fmeas", sh, i))
                J.append(("fbar", sh, i))
                J.append(("fdiam", sh, i))
    return J


def face_pts(tu, sh, i):
    I, r = geo.run_shape(tu, sh.pre + "_fpts", sh, [i])
    return [vec(p) for p in r.e]


def max_leaves(e):
    """the set of alternatives of a value that is a maximum, or None if it is not structurally one"""
    if is_const(e):
        return [e]
    at = single_atom(e)
    if at is not None:
        a, c = at
        if a.kind == "ite" and c > 0:
            cond, x, y = a.args
            for (u, v) in ((x, y),):
                # value x when cond, else y
                if cond == alg.lt(v, u) or cond == alg.le(v, u) or sq_less(cond, v, u):
                    lx, ly = max_leaves(u), max_leaves(v)
                    if lx is None or ly is None:
                        return None
                    return [alg.mul(c, z) for z in lx + ly]
            return None
        if a.kind == "sqrt":
            l = max_leaves(a.args[0])
            return None if l is None else [alg.mul(c, alg.sqrt_(z)) for z in l]
    return [e]


def sq_less(cond, v, u):
    try:
        return cond == alg.lt(alg.mul(v, v), alg.mul(u, u)) or cond == alg.le(alg.mul(v, v), alg.mul(u, u))
    except alg.TooBig:
        return False


def single_atom(e):
    if isinstance(e, alg.E) and not e.d and len(e.n) == 1:
        (m, c), = e.n.items()
        if len(m) == 1 and m[0][1] == 1:
            return alg.Atom.all[m[0][0]], c
    return None


def dist(a, b):
    return alg.sqrt_(ql.sum_([alg.mul(alg.sub(x, y), alg.sub(x, y)) for x, y in zip(a, b)]))


def check_diam(v, P, pos):
    l = max_leaves(v)
    if l is None:
        return None, "the result is not a syntactic maximum"
    ds = [geo.posit(dist(P[i], P[j]), pos) for i in range(len(P)) for j in range(i)]
    l = [geo.posit(x, pos) for x in l]
    for x in l:
        if not any(alg.eq(x, d) for d in ds) and x != 0:
            return False, "the diameter can be %s, which is not a distance between two vertices" % alg.show(x)[:120]
    miss = [d for d in ds if not any(alg.eq(x, d) for x in l)]
    # a distance may be omitted only if it is the same as / dominated by another one: with general maps none is,
    # except between vertices whose difference is a positive fraction of another difference
    for d in miss:
        if not any(dominated(d, x) for x in l):
            return False, "the distance %s between two vertices is never considered" % alg.show(d)[:120]
    return True, "maximum over %d vertex distances" % len(l)


def dominated(d, x):
    try:
        q = alg.div(d, x)
        if is_const(q) and q <= 1:
            return True
        q = alg.sub(alg.mul(x, x), alg.mul(d, d))
        return alg.nonneg_poly(q.n) if isinstance(q, alg.E) and not q.d else (is_const(q) and q >= 0)
    except (alg.TooBig, alg.DivZero):
        return False


def one(tu, j):
    kind, sh, i = j
    if kind in ("kahan2", "kahan3", "tet"):
        dim = 2 if kind == "kahan2" else 3
        n = 4 if kind == "tet" else 3
        P = [mkpt("p%d" % k, dim) for k in range(n)]
        I, r = run(tu, "f_" + kind, P)
        m = ql.simplex_measure([vec(p) for p in P])
        for lits, v in simplify_cases(r):
            k = ql.measure_ratio(v, m)
            if k is None or abs(k - 1) > 1e-12:
                return False, "the result is not the measure of the simplex (ratio %s)" % k
        return True, "equals the simplex measure on every branch"
    ex = [] if i is None else [i]
    I, r = geo.run_shape(tu, "%s_%s" % (sh.pre, kind), sh, ex)
    if kind == "cmeas":
        v = geo.posit(vg.num(r), sh.pos)
        exp = alg.mul(geo.ref_measure(sh), sh.det)
        return verdict(v, exp, "measure of the cell")
    if kind == "cbar":
        return match_point(sh, vec(r), [geo.ref_bary(sh)] + ([vavg(sh.ref)] if sh.dim == 3 else []), "barycenter of the cell")
    if kind == "cdiam":
        P = [sh.image(u) for u in sh.ref]
        return check_diam(vg.num(r), P, sh.pos)
    if kind == "fdiam" and sh.dim == 1:
        return (True, "unit by convention") if r == 1 else (False, "the diameter of a 1D face is not one")
    P = face_pts(tu, sh, i) if kind != "fmeas" or sh.dim > 1 else None
    if kind == "fdiam":
        return check_diam(vg.num(r), P, sh.pos)
    if kind == "fmeas":
        v = geo.posit(vg.num(r), sh.pos)
        if sh.dim == 1:
            return verdict(v, 1, "measure of the face")
        if sh.dim == 2:
            return verdict(v, geo.posit(dist(P[0], P[1]), sh.pos), "measure of the face")
        a = area_vec(P)
        s = geo.posit(alg.sqrt_(ql.sum_([alg.mul(x, x) for x in a])), sh.pos)
        return verdict(v, s, "measure of the face")
    if kind == "fbar":
        f = [geo_pre(sh, p) for p in P]
        return match_point(sh, vec(r), [ref_face_bary(f), vavg(f)], "barycenter of the face")
    raise Und("unknown job")


def vavg(f):
    return [sum((Fraction(p[k]) for p in f), Fraction(0)) / len(f) for k in range(len(f[0]))]


def match_point(sh, b, refs, what):
    """the point must be the image of one of the admissible reference points (centroid; for polyhedra and their
    polygonal faces also the vertex average, which is what the library documents)"""
    first = None
    for ref in refs:
        out = (True, what)
        for x, y in zip(b, sh.image(ref)):
            ok = verdict(geo.posit(x, sh.pos), y, what)
            if ok[0] is not True:
                out = ok
                break
        if out[0] is True:
            return out
        first = first or out
    return first


def geo_pre(sh, p):
    u = sh.preimage(p)
    if u is None:
        raise Und("face point is not a vertex")
    return u


def ref_face_bary(f):
    d = len(f[0])
    if len(f) <= 3:
        return [sum((Fraction(p[k]) for p in f), Fraction(0)) / len(f) for k in range(d)]
    # planar polygon in 3D: area-weighted triangles (areas as projections on the normal direction)
    n = None
    acc = [0] * d
    tot = 0
    for i in range(1, len(f) - 1):
        u = [f[i][k] - f[0][k] for k in range(3)]
        v = [f[i + 1][k] - f[0][k] for k in range(3)]
        c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        if n is None or not any(n):
            n = c
        w = sum(x * y for x, y in zip(c, n))
        tot += w
        for k in range(3):
            acc[k] += w * (f[0][k] + f[i][k] + f[i + 1][k]) / 3
    return [x / tot for x in acc]


def area_vec(P):
    a = [0, 0, 0]
    for i in range(1, len(P) - 1):
        u = [alg.sub(x, y) for x, y in zip(P[i], P[0])]
        v = [alg.sub(x, y) for x, y in zip(P[i + 1], P[0])]
        for k in range(3):
            l, m = (k + 1) % 3, (k + 2) % 3
            a[k] = alg.add(a[k], alg.mul(Fraction(1, 2), alg.sub(alg.mul(u[l], v[m]), alg.mul(u[m], v[l]))))
    return a


def verdict(v, exp, what):
    cs = alg.cases([v], 8)
    if cs is None:
        return None, "too many gates"
    for lits in cs:
        x = alg.assume(v, lits)
        if alg.eq(x, exp):
            continue
        try:
            q = alg.div(x, exp)
        except (alg.TooBig, alg.DivZero):
            q = None
        if is_const(q) and q is not None:
            if abs(float(q) - 1) < 1e-11:
                continue
            return False, "the %s is %.6g times the exact value" % (what, float(q))
        try:
            d = alg.sub(alg.mul(x, x), alg.mul(exp, exp))
            if d == 0 or close(alg.mul(x, x), alg.mul(exp, exp), 1e-11):
                continue
        except alg.TooBig:
            return None, "expression too large"
        if close(x, exp, 1e-11):
            continue
        if has_opaque(x):
            return None, "%s not resolved: %s" % (what, alg.show(x)[:160])
        return False, "the %s is %s instead of %s" % (what, alg.show(x)[:160], alg.show(exp)[:120])
    return True, "%s exact" % what


def has_opaque(x):
    return any(a.kind not in ("var", "sqrt", "abs") for a in alg.atoms_of(x))


NAMES = {"cmeas": "measure of cell", "cbar": "barycenter of cell", "cdiam": "diameter of cell", "fmeas": "measure of face",
         "fbar": "barycenter of face", "fdiam": "diameter of face", "kahan2": "area_triangle_kahan (2D)",
         "kahan3": "area_triangle_kahan (3D)", "tet": "volume_tetrahedron_kahan"}


def where_of(tu, q):
    """source position of the library function a probe is about"""
    f = tu.fns(q)
    if not f:
        return q
    import re
    best = None
    for c in front.calls(f[0]["body"]):
        g = tu.byid.get(c.get("fn"))
        if not g or "body" not in g or "/probes/" in "/" + tu.file(g) or tu.file(g).startswith("/verif"):
            continue
        if not re.search(r"(^|/)(libdiskpp|apps)/", tu.file(g)):
            continue
        n = front.short(g["q"])
        if re.match(r"(backend_storage|cells_begin|faces_begin|begin|end|make_\w+|to_vector|operator\[\]|\w*iterator\w*)$", n) or "iterator" in g["q"]:
            continue
        if g.get("ctor"):
            continue
        best = tu.where(g)
    return best or q


def run_rule(rep):
    tu = front.export(front.PROBES + "/geom.cpp", extra=["-UNDEBUG"])
    J = jobs()
    res = pmap(lambda j: one(tu, j), J)
    for (kind, sh, i), r in zip(J, res):
        oid = kind + ("" if sh is None else "/" + sh.key) + ("" if i is None else "/face-%d" % i)
        q = "f_" + kind if sh is None else "%s_%s" % (sh.pre, kind)
        collect(rep, oid, where_of(tu, q), r, NAMES[kind] + ("" if sh is None else " of a %s" % sh.key))
    return rep.finish(
        "every overload of measure, barycenter and diameter is interpreted abstractly on single-element meshes of each mesh "
        "family whose vertices are the image of a reference shape under an arbitrary affine map (symbolic matrix and "
        "translation, positive determinant); the resulting expression must equal the exact measure / centroid on every "
        "branch, and the diameter must be the maximum over all vertex distances",
        ["exact real arithmetic", "shapes: the simplices, rectangle/box, a cube, a pentagonal prism, five convex and three "
         "nonconvex polygons, each under all orientation-preserving affine maps",
         "area_triangle_kahan / volume_tetrahedron_kahan are replaced by the simplex measure, which is itself an obligation"],
        analysed={"functions": sorted({tu.files[f["file"]].rsplit("/include/", 1)[-1] + ":" + f["q"] for f in tu.functions
                                       if front.short(f["q"]) in ("measure", "barycenter", "diameter") and "body" in f})})


def main(rep): return run_rule(rep)
