"""G02: face normals are unit, orthogonal to the face and outward"""
import front, alg, vg
from .sym import *
from . import geo
from . import quadlib as ql
from .g01 import area_vec, dist, where_of


def dot(a, b): return ql.sum_([alg.mul(x, y) for x, y in zip(a, b)])


def sub(a, b): return [alg.sub(x, y) for x, y in zip(a, b)]


def one(tu, j):
    sh, i = j
    I, p = geo.run_shape(tu, sh.pre + "_cfpts", sh, [i])
    P = [vec(x) for x in p.e]
    pos = []
    if sh.dim == 3:                     # the area of the image of the face is positive
        a = area_vec(P)
        l = alg.sqrt_(dot(a, a))
        pos = [alg.atom_e(alg.Atom.all[x]) for m in getattr(l, "n", {}) for x, _ in m if alg.Atom.all[x].kind == "sqrt"]
    try:
        I, n = geo.run_pos(tu, sh.pre + "_normal", [sh.pts(), i], sh.pos + pos, geo.summaries())
    except (alg.DivZero, vg.Und) as e:
        if type(e) is vg.Und and "division by zero" not in str(e):
            raise
        return False, "the normal of face %d is 0/0" % i
    if sh.dim == 1:
        n = [n] if is_const(n) or isinstance(n, alg.E) else vec(n)
    else:
        n = vec(n)
    if len(n) != sh.dim:
        return False, "the normal has %d components" % len(n)
    bar = sh.image(geo.ref_bary(sh))
    fb = [alg.div(ql.sum_([q[k] for q in P]), len(P)) for k in range(sh.dim)]
    out = sub(fb, bar)
    cs = alg.cases(list(n), 8)
    if cs is None:
        return None, "too many gates"
    for lits in cs:
        m = [geo.posit(alg.assume(x, lits), sh.pos) if not is_const(x) else x for x in n]
        # length
        l2 = geo.posit(dot(m, m), sh.pos)
        if not alg.eq(l2, 1) and not close(l2, 1, 1e-11):
            return False, "the normal is not a unit vector (|n|^2 = %s)" % alg.show(l2)[:120]
        for k in range(1, len(P)):
            t = geo.posit(dot(m, sub(P[k], P[0])), sh.pos)
            if t != 0 and not alg.eq(t, 0):
                return False, "the normal is not orthogonal to the face (n.t = %s)" % alg.show(t)[:120]
        s = geo.posit(dot(m, out), sh.pos)
        if sh.dim == 1:
            sc = 1
        elif sh.dim == 2:
            sc = dist(P[0], P[1])
        else:
            a = area_vec(P)
            sc = alg.sqrt_(dot(a, a))
        # n.out * |face| is a positive multiple of det A for the outward normal
        q = alg.div(geo.posit(alg.mul(s, geo.posit(sc, sh.pos)), sh.pos), sh.det if sh.dim > 1 else sh.A[0][0])
        if not is_const(q):
            q2 = alg.div(alg.mul(s, s), 1)
            return None, "sign of n.(x_face - x_cell) not resolved: %s" % alg.show(s)[:160]
        if q <= 0:
            return False, "the normal of face %d points into the cell (on the branch %s)" % (i, str(lits)[:160])
    return True, "unit, orthogonal, outward on %d branches" % len(cs)


def main(rep):
    tu = front.export(front.PROBES + "/geom.cpp", extra=["-UNDEBUG"])
    J = []
    for sh in geo.shapes() + [geo.sheared_rect(), geo.sheared_box()]:
        for i in range(len(sh.faces)):
            J.append((sh, i))
    res = pmap(lambda j: one(tu, j), J)
    for (sh, i), r in zip(J, res):
        collect(rep, "normal/%s/face-%d" % (sh.key, i), where_of(tu, sh.pre + "_normal"), r, "normal of a %s" % sh.key)
    return rep.finish(
        "normal(mesh, cell, face) is interpreted abstractly for every face of every element family under a symbolic affine "
        "map; on every branch n.n = 1, n.(p_k - p_0) = 0 for all face points and n.(x_face - x_cell) > 0, decided by exact "
        "algebraic identities modulo det A > 0",
        ["exact real arithmetic", "convex cells (orientation of nonconvex generic cells is not claimed)"],
        analysed={"functions": sorted({tu.where(f) for f in tu.functions if front.short(f["q"]) == "normal" and "body" in f})})
