"""H06: stabilisations are the documented forms, vanish on polynomials, and control what the reconstruction does not see"""
import front
from .hlib import *
from .g01 import where_of
from .h05 import reference, KAPPA, kmat, cost

VEC = ("vstab", "vsstab", "vstabm", "vstabo", "vhdg", "vdg")
HHO = ("stab", "stabf", "stabm", "stabc", "stabk", "vstab", "vsstab", "vstabm", "vstabo")
HDG = ("hdg", "hdgm", "hdgk", "vhdg")


def hlen(ids):
    """a length per cell/face, all different, so that a length taken from the wrong element shows"""
    return Fr(5 + 3 * sum((i + 1) ** 2 for i in ids), 4)


def flen(C, el):
    pts = [tuple(p) for p in el.s[0]]
    ids = sorted(C.P.index(p) for p in pts)
    return hlen(ids)


def expected(C, S, probe, fd, hF, K_):
    """the documented form, assembled independently"""
    n = S.n
    nc = len(S.cb)
    out = [[Fr(0)] * n for _ in range(n)]
    hc = hlen(range(len(C.P)))
    R = None
    if probe in HHO:
        kind = {"stabk": "lap/k", "vsstab": "vsl"}.get(probe, "vl" if probe in VEC else "lap")
        fam, A, B = reference(C, S, kind, fd + 1, fd)
        if kind == "vsl":
            R = saddle(C, S, fam, A, B)
        else:
            R = solve(A, B)
        M = gram(S.cell, S.cb)
        P = solve(M, mm(gram(S.cell, S.cb, fam), R))      # pi_T R
    for el, nrm, fb, off in zip(S.faces, S.normals, S.fb, S.off):
        h = flen(C, el) if hF else hc
        w = Fr(1) / h
        if K_ is not None:
            Kn = [sum(a * x for a, x in zip(r, nrm)) for r in K_]
            w = w * sum(a * x for a, x in zip(nrm, Kn))
        Mf = gram(el, fb)
        if probe in ("dg", "dgm", "vdg"):
            T = gram(el, fb, S.cb)
            MT = gram(el, S.cb)
            for i in range(nc):
                for j in range(nc):
                    out[i][j] = out[i][j] + w * MT[i][j]
            for i in range(len(fb)):
                for j in range(len(fb)):
                    out[off + i][off + j] = out[off + i][off + j] + w * Mf[i][j]
                for j in range(nc):
                    out[off + i][j] = out[off + i][j] - w * T[i][j]
                    out[j][off + i] = out[j][off + i] - w * T[i][j]
            continue
        # phi = pi_F( v_F - v_T - R v + pi_T R v )
        V = [[Fr(0)] * n for _ in range(len(fb))]
        T = gram(el, fb, S.cb)
        for i in range(len(fb)):
            for j in range(nc):
                V[i][j] = -T[i][j]
        if R is not None:
            V = madd(V, mm(gram(el, fb, fam), R), -1)
            V = madd(V, mm(T, P), 1)
        phi = solve(Mf, V)
        for i in range(len(fb)):
            phi[i][off + i] = alg.add(phi[i][off + i], 1)
        Q = mm(tr(phi), mm(Mf, phi))
        out = madd(out, scal(Q, w))
    return out


def saddle(C, S, fam, A, B):
    d = C.dim
    sk = [[integral(S.cell, padd(deriv(f[i], j), deriv(f[j], i), -1)) for f in fam] for i in range(d) for j in range(i)]
    m = len(sk)
    big = [list(r) + [sk[q][i] for q in range(m)] for i, r in enumerate(A)] + [list(sk[q]) + [Fr(0)] * m for q in range(m)]
    rhs = [list(r) for r in B] + [[Fr(0)] * S.n for _ in range(m)]
    return solve(big, rhs)[:len(fam)]


def one(tu, job):
    C, r = one_(tu, job)
    if r[0]:
        w = slack(C)
        if w:
            return False, "%s, at %s" % (w[0][1], w[0][0].where)
    return r


def one_(tu, job):
    K, probe, cd, fd, args, fds, hF = job
    C = Ctx(tu, K, hlen)
    S = Spc(C, cd, fds if fds is not None else fd, probe in VEC)
    m = C.call(probe + "_" + K, [C.pts()] + args)
    got = as_rows(m)
    if len(got) != S.n or len(got[0]) != S.n:
        return C, (False, "the matrix is %dx%d for %d unknowns" % (len(got), len(got[0]), S.n))
    if not symmetric(m):
        return C, (False, "the matrix is not symmetric")
    i = inertia(m)
    if i[2]:
        return C, (False, "the matrix has %d negative directions" % i[2])
    d = C.dim
    vec = probe in VEC
    lo = min(S.fds)
    keep = min(fd + 1, lo + 1) if probe in HHO else cd if probe in HDG else min(cd, lo)
    if probe in HHO and fds is not None:
        keep = min(lo, fd)
    for e in mono(d, keep):
        for c in range(d if vec else 1):
            p = [{e: Fr(1)} if c == q else {} for q in range(d if vec else 1)]
            if any(not alg.eq(x[0], 0) for x in mm(got, [[x] for x in S.interp(p)])):
                return C, (False, "the interpolate of the monomial %s of degree %d is penalised" % (e, sum(e)))
    ex = expected(C, S, probe, fd, hF, KAPPA[d] if probe in ("stabk", "hdgk") else None)
    w = diff_at(got, ex)
    if w:
        return C, (False, "differs from the documented form between %s and %s" % (names(S, w[0]), names(S, w[1])))
    if fds is None and cd <= fd + 1:
        kind = "vsl" if probe == "vsstab" else "vl" if vec else "lap/k" if probe in ("stabk", "hdgk") else "lap"
        fam, A, B = reference(C, S, kind, fd + 1, fd)
        R = saddle(C, S, fam, A, B) if kind == "vsl" else solve(A, B)
        E = madd(mm(tr(R), mm(A, R)), got)
        n = S.n
        i = inertia(Mat(n, n, [x for r in E for x in r]))
        want = d * (d + 1) // 2 if probe == "vsstab" else d if vec else 1
        if i[2] or i[1] != want:
            return C, (False, "together with the reconstruction the form vanishes on a space of dimension %d instead of %d" % (i[1], want))
    return C, (True, "%d unknowns: symmetric, positive, equal to the documented form, zero on polynomials, kernel as required" % S.n)


def jobs(tier):
    J = []
    th = tier == "thorough"

    def add(K, probe, cd, fd, args, hF, fds=None):
        J.append(("%s/%s/%d-%d/%s%s" % (probe, K, cd, fd, "hF" if hF else "hT", "/" + "".join(map(str, fds)) if fds else ""),
                  (K, probe, cd, fd, args, fds, hF)))
    for K in ("t2", "p2", "t3"):
        d = DIM[K]
        nf = {"t2": 3, "p2": 5, "t3": 4}[K]
        D = {"t2": [(0, 0), (1, 1), (2, 1), (0, 1), (2, 2)], "p2": [(1, 1), (2, 1)], "t3": [(0, 0), (1, 0), (1, 1)]}[K]
        if th:
            D = D + {"t2": [(1, 2), (3, 2), (3, 3)], "p2": [(2, 2), (1, 2)], "t3": [(2, 1), (0, 1)]}[K]
        for cd, fd in D:
            add(K, "stab", cd, fd, [cd, fd], False)
            main_ = (cd, fd) in ((1, 1), (2, 1)) or th
            for hF in (True, False):
                if main_:
                    add(K, "stabc", cd, fd, [cd, fd, hF], hF)
                    add(K, "stabf", cd, fd, [cd, fd, hF], hF)
                if cd >= fd:
                    add(K, "hdg", cd, fd, [cd, fd, hF], hF)
                    add(K, "dg", cd, fd, [cd, fd, hF], hF)
            if main_:
                add(K, "stabk", cd, fd, [cd, fd, kmat(d)], False)
                add(K, "hdgk", cd, fd, [cd, fd, kmat(d)], False)
        for i0, d0 in ((1, 0), (nf - 1, 2)) if d == 2 or th else ((1, 0),):
            fds = [1] * nf
            fds[i0] = d0
            for hF in (True, False):
                add(K, "stabm", 1, 1, [1, 1, i0, d0, hF], hF, fds)
                add(K, "hdgm", 1, 1, [1, 1, i0, d0, hF], hF, fds)
                add(K, "dgm", 1, 1, [1, 1, i0, d0, hF], hF, fds)
                if d == 2:
                    add(K, "vstabm", 1, 1, [1, 1, i0, d0, hF], hF, fds)
        for cd, fd in {"t2": [(1, 1), (2, 1)], "p2": [(1, 1)], "t3": [(0, 0)]}[K] + ([(1, 1)] if th and K == "t3" else []):
            for hF in (True, False):
                add(K, "vstab", cd, fd, [cd, fd, hF], hF)
                if fd >= 1:
                    add(K, "vsstab", cd, fd, [cd, fd, hF], hF)
                add(K, "vstabo", cd, fd, [cd, fd, hF], hF)
                add(K, "vhdg", cd, fd, [cd, fd, hF], hF)
                add(K, "vdg", cd, fd, [cd, fd, hF], hF)
    return J


NM = {"stab": "HHO stabilisation", "hdg": "HDG stabilisation", "dg": "DG stabilisation"}


def title(j):
    p = j[1].lstrip("v").lstrip("s") if j[1] != "stab" and not j[1].startswith("stab") else j[1]
    k = "dg" if p.startswith("dg") else "hdg" if p.startswith("hdg") else "stab"
    return "%s%s (%s, cell degree %d, face degree %d)" % ("vector " if j[1] in VEC else "", NM[k], j[1], j[2], j[3])


def main(rep):
    tu = front.export(front.PROBES + "/hho.cpp")
    J = jobs(rep.tier)
    order = sorted(range(len(J)), key=lambda i: -cost((J[i][1][0], J[i][1][1], "vl" if J[i][1][1] in VEC else "lap") + J[i][1][2:4]))
    res = [None] * len(J)
    for i, r in zip(order, pmap(lambda i: one(tu, J[i][1]), order)):
        res[i] = r
    for (oid, j), r in zip(J, res):
        collect(rep, oid, where_of(tu, j[1] + "_" + j[0]), r, title(j))
    return rep.finish(
        "the local matrix is interpreted in the domain of integrals on concrete cells with distinct lengths for every face and cell; it "
        "must be symmetric, positive (exact LDL^T), vanish on the interpolates of the polynomials the method preserves, equal the "
        "documented form assembled independently, and its sum with the reconstruction energy must vanish on constants (rigid motions) only",
        ["exact real arithmetic", "quadratures exact for the polynomials they receive (Q03, H03)", "one cell per shape"],
        analysed={"operators": sorted({j[1] for _, j in J}), "functions": len(tu.functions)})
