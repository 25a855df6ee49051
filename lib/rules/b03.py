"""B03: vector and matrix valued bases span the spaces they are named after"""
import front, alg, vg
from .sym import *
from . import blib as b
from .g01 import where_of
from .b01 import xs, num_, binom, clean, normal

Fr = b.Fr
CELL = {"ve2": 2, "ve3": 3, "ma2": 2, "ma3": 3, "sy2": 2, "sy3": 3, "vr2": 2, "vr3": 3, "mr2": 2, "mr3": 3, "sr2": 2, "sr3": 3}
FACE = {"vf2": 2, "vf3": 3, "ta3": 3, "ne3": 3}
NAMES = {"ve": "vector monomial basis", "ma": "matrix monomial basis", "sy": "symmetric matrix basis", "vr": "Raviart-Thomas vector basis",
         "mr": "Raviart-Thomas matrix basis", "sr": "symmetric Raviart-Thomas matrix basis", "vf": "vector basis of a face",
         "ta": "tangential vector basis of a face", "ne": "Nedelec tangential basis of a face"}


def units(kind, d):
    if kind in ("ve", "vr"):
        return [[int(i == j) for i in range(d)] for j in range(d)]
    if kind in ("ma", "mr"):
        return [[int(i == j) for i in range(d * d)] for j in range(d * d)]
    out = []
    for i in range(d):
        for j in range(i + 1):
            out.append([int((a, c) in ((i, j), (j, i))) for a in range(d) for c in range(d)])
    return out


def homog(d, k):
    return [m for m in monomials(d, k) if sum(m) == k]


def inc(m, i):
    return tuple(x + (1 if j == i else 0) for j, x in enumerate(m))


def expected(kind, d, k):
    """generators, in coordinates centred at the barycenter"""
    if kind in ("ve", "ma", "sy"):
        U = units(kind, d)
        return b.full_space(len(U[0]), d, k, U)
    U = units(kind, d)
    G = b.full_space(len(U[0]), d, k - 1, U)
    for m in homog(d, k - 1):
        if kind == "vr":
            G.append({(i, inc(m, i)): Fr(1) for i in range(d)})
        else:
            for r in range(d):
                f = {}
                for i in range(d):
                    if kind == "mr":
                        f[(r * d + i, inc(m, i))] = Fr(1)
                    else:       # sym(e_r (x) x)
                        for pos in ((r, i), (i, r)):
                            key = (pos[0] * d + pos[1], inc(m, i))
                            f[key] = f.get(key, 0) + Fr(1, 2)
                G.append(f)
    return G


def cell(tu, j):
    k, deg = j
    d, kind = CELL[k], k[:2]
    g = b.concrete(d)
    g.axes = [[Fr(int(i == jj)) for jj in range(d)] for i in range(d)]
    bar = g.bar
    x = [alg.add(v, c) for v, c in zip(xs(d), bar)]
    I, v = b.call(tu, k + "_fun", [b.pts_of(d), deg, cpt(x)], g.overrides())
    F = b.tens(v)
    n = num_(b.call(tu, k + "_size", [b.pts_of(d), deg], g.overrides())[1])
    if n != len(F):
        return False, "size() is %d but %d functions are evaluated (degree %d)" % (n, len(F), deg)
    R = b.rows(normal(F), xs(d))
    irr = kind in ("sy", "sr")
    m = b.same_space(R, expected(kind, d, deg), 1e-9 if irr else 0)
    if m:
        return False, "degree %d: %s" % (deg, m)
    return True, "degree %d: %d functions, right space" % (deg, n)


def face(tu, j):
    k, deg = j
    d, kind = FACE[k], k[:2]
    pts = b.pts_of(d)
    I, fp = run(tu, "fpts_%s" % k, [pts])
    F = [vec(p) for p in fp.e]
    bar = [sum(f[i] for f in F) / Fr(len(F)) for i in range(d)]
    g = b.concrete(d)
    g.bar = bar
    s, t = alg.var("s"), alg.var("t")
    T = [Fr(F[1][i]) - Fr(F[0][i]) for i in range(d)]
    loc = [s]
    x = [alg.add(bar[i], alg.mul(s, T[i])) for i in range(d)]
    frame = None
    if d == 3:
        U = [Fr(F[2][i]) - Fr(F[0][i]) for i in range(3)]
        tt, tu_ = sum(a * a for a in T), sum(a * c for a, c in zip(T, U))
        W = [u - tu_ / tt * a for u, a in zip(U, T)]
        N = [T[1] * W[2] - T[2] * W[1], T[2] * W[0] - T[0] * W[2], T[0] * W[1] - T[1] * W[0]]
        unit = []
        for c in (T, W, N):
            l = alg.sqrt_(sum(a * a for a in c))
            unit.append([alg.div(a, l) for a in c])
        g.axes = [[unit[jj][i] for jj in range(3)] for i in range(3)]
        g.box = [Fr(3), Fr(7, 2), Fr(0)]
        loc = [s, t]
        x = [alg.add(x[i], alg.mul(t, W[i])) for i in range(3)]
        frame = (T, W)
    else:
        l = alg.sqrt_(sum(a * a for a in T))
        g.h = l
    I, v = b.call(tu, k + "_fun", [pts, deg, cpt(x)], g.overrides())
    V = b.tens(v)
    n = num_(b.call(tu, k + "_size", [pts, deg], g.overrides())[1])
    if n != len(V):
        return False, "size() is %d but %d functions are evaluated" % (n, len(V))
    nv = len(loc)
    tol = 1e-11
    R = b.rows(normal(V), loc)
    R = [{q: c for q, c in r.items() if abs(c) > 1e-13} for r in R]
    if kind == "vf":
        E = b.full_space(d, nv, deg)
    else:
        U = [list(f) for f in frame]
        E = b.full_space(3, 2, deg if kind == "ta" else deg - 1, U)
        if kind == "ne":
            for m in homog(2, deg + 1):      # gradients of homogeneous polynomials of degree k+1 in the plane of the face
                f = {}
                nn = [sum(c * c for c in u) for u in U]
                for i in (0, 1):
                    if m[i]:
                        mm = tuple(e - (1 if q == i else 0) for q, e in enumerate(m))
                        for c in range(3):
                            if U[i][c]:
                                f[(c, mm)] = f.get((c, mm), 0) + Fr(m[i]) * U[i][c] / nn[i]
                E.append(f)
    if b.rank(R, tol) != len(R):
        return False, "degree %d: the %d functions are linearly dependent" % (deg, len(R))
    if b.rank(E) != len(E) or len(E) != len(R):
        return False, "degree %d: %d functions for a space of dimension %d" % (deg, len(R), b.rank(E))
    if b.rank(E + R, 1e-9) != len(R):
        return False, "degree %d: the functions do not span the announced space" % deg
    return True, "degree %d: %d functions, right space" % (deg, n)


def sizes(tu, j):
    q, args, exp = j
    v = num_(run(tu, q, list(args))[1])
    return v == exp, "%s%r = %d%s" % (q[2:], tuple(args), v, "" if v == exp else ", expected %d" % exp)


def main(rep):
    tu = front.export(front.PROBES + "/bases.cpp")
    hi = 4 if rep.tier == "thorough" else 3
    J = []
    for k, d in CELL.items():
        for deg in range(1 if k[1] == "r" else 0, (hi if d == 3 else hi + 1) + 1):
            J.append((cell, "space/%s/%d" % (k, deg), (k, deg), k))
    for k in FACE:
        for deg in range(1 if k == "ne3" else 0, hi + 1):
            J.append((face, "space/%s/%d" % (k, deg), (k, deg), k))
    for d in (1, 2, 3):
        for kk in range(7):
            J.append((sizes, "size/vector/%d/%d" % (kk, d), ("f_vsize", (kk, d, 3), 3 * binom(kk + d, d)), None))
    for d in (2, 3):
        for kk in range(7):
            J.append((sizes, "size/matrix/%d/%d" % (kk, d), ("f_msize", (kk, d, d), d * d * binom(kk + d, d)), None))
            J.append((sizes, "size/sym/%d/%d" % (kk, d), ("f_symsize", (kk, d, d), d * (d + 1) // 2 * binom(kk + d, d)), None))
    res = pmap(lambda t: t[0](tu, t[2]), J)
    for (f, oid, a, k), r in zip(J, res):
        q = (k + "_fun") if k else a[0]
        collect(rep, oid, where_of(tu, q), r, "%s in %dD" % (NAMES[k[:2]], dict(CELL, **FACE)[k]) if k else "basis size")
    return rep.finish(
        "eval_functions is interpreted with a symbolic point; exact linear algebra over Q decides that the functions are as many as "
        "size(), independent, and span the announced space: [P^k]^d, matrices, symmetric matrices, Raviart-Thomas "
        "P^{k-1} + P^{k-1}_hom x, tangential and Nedelec spaces of a face",
        ["exact real arithmetic", "degrees up to %d" % (hi + 1)],
        analysed={"bases": sorted(CELL) + sorted(FACE), "functions": len(tu.functions)})
