"""H08: the scalar HHO method on the newer basis interface (slapl): reconstruction, stabilisations, reduction"""
import front
from .hlib import *
from .g01 import where_of
from .h06 import hlen


def one(tu, job):
    C = Ctx(tu, job[1], hlen)
    r = work(C, *job)
    if r[0]:
        w = slack(C)
        if w:
            return False, "%s, at %s" % (w[0][1], w[0][0].where)
    return r


def work(C, kind, K, cd, fd):
    d = C.dim
    if kind == "dim":
        from math import comb
        got = [int(vg.num(x)) for x in C.call("sldim_" + K, [C.pts(), cd, fd]).e]
        size = lambda k, n: comb(k + n, n)
        want = [size(cd, d), size(fd, d - 1), size(fd + 1, d), 0, 0, 1, cd, cd, cd + 1]
        return got == want, "dimensions of cell, face and reconstruction space and default degrees: %s, expected %s" % (got, want)
    S = Spc(C, cd, fd, probes=("slc_", "slf_"))
    if kind == "red":
        for e in mono(d, min(cd, fd) + 1):
            m = C.call("slred_" + K, [C.pts(), cd, fd, Seq(list(e))])
            got, want = [vg.num(x) for x in m.e], S.interp([{e: Fr(1)}])
            if len(got) != S.n:
                return False, "%d unknowns, expected %d" % (len(got), S.n)
            for j, (a, b_) in enumerate(zip(got, want)):
                if not alg.eq(a, b_):
                    return False, "the reduction of the monomial %s differs from its projections at %s" % (e, names(S, j))
        return True, "%d unknowns: L2 projections" % S.n
    fam = C.basis("slc_" + K, [fd + 1])[1:]
    g = [grad(f[0], d) for f in fam]
    idx = {id(f): i for i, f in enumerate(fam)}
    A = gram(S.cell, g)
    B = by_parts(S, lambda t: [pscale(div(g[idx[id(t)]]), -1)], lambda t, n: matvec_rows([g[idx[id(t)]]], n), fam)
    R = solve(A, B)
    if kind == "op":
        oper, data = [as_rows(m) for m in pair(C.call("slop_" + K, [C.pts(), cd, fd]))[:2]]
        if len(oper) != len(fam) or len(oper[0]) != S.n:
            return False, "the operator has shape %dx%d for a space of %d functions and %d unknowns" % (len(oper), len(oper[0]), len(fam), S.n)
        w = diff_at(mm(A, oper), B)
        if w:
            return False, "the defining equation fails for test function %d and %s" % (w[0], names(S, w[1]))
        w = diff_at(data, mm(tr(oper), mm(A, oper)))
        if w:
            return False, "the local matrix is not the energy of the reconstruction: entry (%s, %s)" % (names(S, w[0]), names(S, w[1]))
        full = C.basis("slc_" + K, [fd + 1])
        for e in mono(d, fd + 1) if cd + 1 >= fd else ():
            p = [{e: Fr(1)}]
            want, got = coeffs(full, p)[1:], mm(oper, [[x] for x in S.interp(p)])
            if any(not alg.eq(a[0], b_) for a, b_ in zip(got, want)):
                return False, "the interpolate of the monomial %s is not reproduced" % (e,)
        return True, "%d unknowns, %d functions: defining equation, energy form and polynomial consistency" % (S.n, len(fam))
    m = C.call("sl%s_%s" % (kind, K), [C.pts(), cd, fd])
    got = as_rows(m)
    if len(got) != S.n or len(got[0]) != S.n:
        return False, "the matrix is %dx%d for %d unknowns" % (len(got), len(got[0]), S.n)
    n, nc = S.n, len(S.cb)
    P = solve(gram(S.cell, S.cb), mm(gram(S.cell, S.cb, fam), R)) if kind == "st" else None
    out = [[Fr(0)] * n for _ in range(n)]
    w = Fr(1) / hlen(range(len(C.P))) if kind == "st" else Fr(1)
    for el, fb, off in zip(S.faces, S.fb, S.off):
        Mf, T = gram(el, fb), gram(el, fb, S.cb)
        V = [[-T[i][j] for j in range(nc)] + [Fr(0)] * (n - nc) for i in range(len(fb))]
        if P is not None:
            V = madd(madd(V, mm(gram(el, fb, fam), R), -1), mm(T, P), 1)
        phi = solve(Mf, V)
        for i in range(len(fb)):
            phi[i][off + i] = alg.add(phi[i][off + i], 1)
        out = madd(out, scal(mm(tr(phi), mm(Mf, phi)), w))
    v = diff_at(got, out)
    if v:
        return False, "differs from the documented form between %s and %s" % (names(S, v[0]), names(S, v[1]))
    for e in mono(d, fd + 1 if kind == "st" else cd):
        if (kind == "st" and cd + 1 >= fd) or cd <= fd + 1:
            if kind == "hdg" and sum(e) > cd:
                continue
            if any(not alg.eq(x[0], 0) for x in mm(got, [[x] for x in S.interp([{e: Fr(1)}])])):
                return False, "the interpolate of the monomial %s of degree %d is penalised" % (e, sum(e))
    if cd <= fd + 1:
        E_ = madd(mm(tr(R), mm(A, R)), got)
        i = inertia(Mat(n, n, [x for r in E_ for x in r]))
        if i[2] or i[1] != 1:
            return False, "with the reconstruction the form vanishes on a space of dimension %d instead of 1" % i[1]
    return True, "%d unknowns: documented form, zero on polynomials, kernel as required" % n


def jobs(tier):
    th = tier == "thorough"
    J = []
    deg = {"t2": [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)], "p2": [(0, 0), (1, 1), (2, 1), (0, 1)], "t3": [(0, 0), (1, 0), (0, 1), (1, 1)]}
    if th:
        deg = {"t2": deg["t2"] + [(3, 2), (2, 3), (3, 3)], "p2": deg["p2"] + [(1, 2), (2, 2)], "t3": deg["t3"] + [(2, 1), (1, 2)]}
    for K in deg:
        for cd, fd in deg[K]:
            for kind in ("dim", "red", "op", "st", "hdg"):
                J.append(("%s/%s/%d-%d" % (kind, K, cd, fd), (kind, K, cd, fd)))
    return J


TITLE = {"dim": "space dimensions", "red": "local reduction", "op": "local operator", "st": "local stabilisation", "hdg": "HDG stabilisation"}


def main(rep):
    tu = front.export(front.PROBES + "/hho.cpp")
    J = jobs(rep.tier)
    order = sorted(range(len(J)), key=lambda i: -(J[i][1][2] + J[i][1][3]) * (3 if J[i][1][1] == "t3" else 1))
    res = [None] * len(J)
    for i, r in zip(order, pmap(lambda i: one(tu, J[i][1]), order)):
        res[i] = r
    for (oid, j), r in zip(J, res):
        collect(rep, oid, where_of(tu, "sl%s_%s" % (j[0], j[1])), r, "%s (cell degree %d, face degree %d)" % (TITLE[j[0]], j[2], j[3]))
    return rep.finish(
        "the local operators are interpreted in the domain of integrals on concrete cells, the basis functions being read as polynomials from the "
        "library; the reconstruction must solve its defining equation and reproduce polynomials, the stabilisations must equal the documented forms, "
        "vanish on polynomials and control what the reconstruction does not see, the reduction must be the L2 projections",
        ["exact real arithmetic", "quadratures exact for the polynomials they receive (Q03, H03)", "one cell per shape"],
        analysed={"obligations": len(J), "functions": len(tu.functions)})
