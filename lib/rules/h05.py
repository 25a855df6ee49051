"""H05: reconstruction operators are the documented projections"""
import front
from .hlib import *
from .g01 import where_of

KAPPA = {2: [[Fr(3), Fr(1)], [Fr(1), Fr(2)]], 3: [[Fr(3), Fr(1), Fr(-1)], [Fr(1), Fr(2), Fr(0)], [Fr(-1), Fr(0), Fr(4)]]}


def eye(d):
    return [[Fr(i == j) for j in range(d)] for i in range(d)]


def kmat(d):
    return Mat(d, d, [x for r in KAPPA[d] for x in r])


def reference(C, S, kind, rd, gd):
    """(family, Gram matrix of the form, right-hand side) of the operator"""
    d, K = C.dim, C.K
    base, _, mod = kind.partition("/")
    if base == "lap":
        k = KAPPA[d] if mod == "k" else eye(d)
        fam = C.basis("cb_" + K, [rd])[1:]
        g = [grad(f[0], d) for f in fam]
        kg = [matvec(k, x) for x in g]
        idx = {id(f): i for i, f in enumerate(fam)}
        return fam, gram(S.cell, g, kg), by_parts(S, lambda t: [pscale(div(kg[idx[id(t)]]), -1)],
                                                  lambda t, n: matvec_rows([kg[idx[id(t)]]], n), fam)
    if base == "vl":
        fam = C.basis("vcb_" + K, [rd])[d:]
        g = [gradv(f, d) for f in fam]
        idx = {id(f): i for i, f in enumerate(fam)}
        return fam, gram(S.cell, g), by_parts(S, lambda t: [pscale(x, -1) for x in divm(g[idx[id(t)]], d)],
                                              lambda t, n: mdotn(g[idx[id(t)]], n), fam)
    if base == "vsl":
        fam = C.basis("vcb_" + K, [rd])[d:]
        g = [sym(gradv(f, d), d) for f in fam]
        idx = {id(f): i for i, f in enumerate(fam)}
        return fam, gram(S.cell, g), by_parts(S, lambda t: [pscale(x, -1) for x in divm(g[idx[id(t)]], d)],
                                              lambda t, n: mdotn(g[idx[id(t)]], n), fam)
    if base == "vg":
        fam = C.basis(("rtb_" if mod == "rt" else "cb_") + K, [gd])
        if mod != "rt":
            fam = C.basis("vcb_" + K, [gd])
        return fam, gram(S.cell, fam), by_parts(S, lambda t: [pscale(div(t), -1)], lambda t, n: matvec_rows([t], n), fam)
    if base in ("mg", "msg"):
        fam = C.basis({"mg": "mb_", "msg": "smb_", "msg/rt": "smrtb_"}[kind if mod == "rt" else base] + K, [gd])
        return fam, gram(S.cell, fam), by_parts(S, lambda t: [pscale(x, -1) for x in divm(t, d)], lambda t, n: mdotn(t, n), fam)
    if base == "div":
        fam = C.basis("cb_" + K, [gd])
        return fam, gram(S.cell, fam), by_parts(S, lambda t: [pscale(x, -1) for x in grad(t[0], d)],
                                                lambda t, n: [pscale(t[0], a) for a in n], fam)
    raise KeyError(kind)


def two_(ids):
    return Fr(2)


VEC = ("vl", "vsl", "mg", "msg", "div")


def one(tu, job):
    C, r = one_(tu, job)
    if r[0]:
        w = slack(C)
        if w:
            return False, "%s, at %s" % (w[0][1], w[0][0].where)
    return r


def one_(tu, job):
    K, probe, kind, cd, fd, rd, gd, args, fds, hov = job
    C = Ctx(tu, K, hov)
    base, _, mod = kind.partition("/")
    S = Spc(C, cd, fds if fds is not None else fd, base in VEC)
    mats = pair(C.call(probe + "_" + K, [C.pts()] + args))
    if base == "harm":
        return C, (harmonic(C, S, kind, mats, cd, fd, rd))
    fam, A, B = reference(C, S, kind, rd, gd)
    if probe == "divrhs":
        w = diff_at(as_rows(mats[0]), B)
        if w:
            return C, (False, "entry %s differs from (div-form of test function %d against %s)" % (w, w[0], names(S, w[1])))
        return C, (True, "%d x %d right-hand side is the exact one" % (len(B), S.n))
    oper, data = [as_rows(m) for m in mats[:2]]
    if len(oper) != len(fam) or len(oper[0]) != S.n:
        return C, (False, "the operator has shape %dx%d for a space of %d functions and %d unknowns" % (
            len(oper), len(oper[0]), len(fam), S.n))
    AO = mm(A, oper)
    w = diff_at(AO, B)
    if w:
        return C, (False, "the defining equation fails for test function %d and %s" % (w[0], names(S, w[1])))
    if base == "vsl":       # the antisymmetric part of the mean gradient of the reconstruction is fixed to zero
        d = C.dim
        sk = [[integral(S.cell, padd(deriv(f[i], j), deriv(f[j], i), -1)) for f in fam] for i in range(d) for j in range(i)]
        Z = mm(sk, oper)
        if any(not alg.eq(x, 0) for r in Z for x in r):
            return C, (False, "the mean rotation of the reconstruction is not zero")
    form = A
    if mod in ("k", "rtk") and base == "vg":
        kf = [matvec(KAPPA[C.dim], f) for f in fam]
        form = gram(S.cell, fam, kf)
    D = mm(tr(oper), mm(form, oper))
    w = diff_at(data, D)
    if w:
        return C, (False, "the local matrix is not the energy of the reconstruction: entry (%s, %s)" % (names(S, w[0]), names(S, w[1])))
    # consistency on polynomials (what a user relies on)
    kmax = fd + 1 if base in ("lap", "vl", "vg", "mg") else 0
    if fds is None and cd >= fd - 1 and kmax:
        d = C.dim
        for m in mono(d, min(kmax, gd + 1) if base in ("vg", "mg") else kmax):
            comps = range(d) if base in VEC else [0]
            for c in comps:
                p = [{m: Fr(1)} if c == q else {} for q in range(d if base in VEC else 1)]
                want = None
                if base == "lap" or base == "vl":
                    want = coeffs(C.basis(("v" if base == "vl" else "") + "cb_" + K, [rd]), p)[(d if base == "vl" else 1):]
                elif cd >= gd - 1 and fd >= gd:
                    g = gradv(p, d) if base in VEC else grad(p[0], d)
                    want = coeffs(fam, g) if sum(m) - 1 <= gd and mod != "rt" else None
                if want is None:
                    continue
                v = S.interp(p)
                got = mm(oper, [[x] for x in v])
                if any(not alg.eq(a[0], b_) for a, b_ in zip(got, want)):
                    return C, (False, "the interpolate of the monomial %s is not reproduced" % (m,))
    return C, (True, "%d unknowns, %d functions: defining equation, energy form and polynomial consistency hold exactly" % (S.n, len(fam)))


def harmonic(C, S, kind, mats, cd, fd, rd):
    d, K = C.dim, C.K
    oper, data = [as_rows(m) for m in mats[:2]]
    top = cd + 2
    keep = {"harm/sfl": fd + 1, "harm/f": min(cd, fd + 1), "harm/h": min(cd, fd)}[kind]
    fam = C.basis("hb_" + K, [rd, top])[1:]
    if len(oper) != len(fam) or len(oper[0]) != S.n:
        return False, "the operator has shape %dx%d for a space of %d functions and %d unknowns" % (
            len(oper), len(oper[0]), len(fam), S.n)
    g = [grad(f[0], d) for f in fam]
    A = gram(S.cell, g)
    D = mm(tr(oper), mm(A, oper))
    w = diff_at(data, D)
    if w:
        return False, "the local matrix is not the energy of the reconstruction: entry (%s, %s)" % (names(S, w[0]), names(S, w[1]))
    full = C.basis("hb_" + K, [rd, top])
    for m in mono(d, keep):
        p = [{m: Fr(1)}]
        want = coeffs(full, p)[1:]
        got = mm(oper, [[x] for x in S.interp(p)])
        if any(not alg.eq(a[0], b_) for a, b_ in zip(got, want)):
            return False, "the interpolate of the monomial %s is not reproduced" % (m,)
    return True, "%d unknowns, %d functions: energy form and polynomial consistency hold exactly" % (S.n, len(fam))


def jobs(tier):
    J = []
    th = tier == "thorough"
    deg = {"t2": [(0, 0), (1, 1), (2, 1), (1, 2), (2, 2)], "p2": [(1, 1), (2, 1)], "t3": [(0, 0), (1, 1), (2, 1)]}
    vdeg = {"t2": [(1, 1), (2, 1)], "p2": [(1, 1)], "t3": [(1, 1)]}
    if th:
        deg = {"t2": deg["t2"] + [(3, 2), (3, 3)], "p2": deg["p2"] + [(2, 2), (3, 2)], "t3": deg["t3"] + [(1, 2), (2, 2)]}
        vdeg = {"t2": [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)], "p2": [(1, 1), (2, 1), (2, 2)], "t3": [(1, 1), (2, 1)]}

    def add(K, probe, kind, cd, fd, rd, gd, args, fds=None, h=None):
        J.append(("%s/%s/%d-%d%s" % (probe, K, cd, fd, ("/r%d" % rd if rd != fd + 1 else "") + ("/g%d" % gd if gd != fd else "") +
                                     ("/" + "".join(map(str, fds)) if fds else "")),
                  (K, probe, kind, cd, fd, rd, gd, args, fds, h)))
    two = two_
    for K in ("t2", "p2", "t3"):
        d = DIM[K]
        nf = {"t2": 3, "p2": 5, "t3": 4}[K]
        for cd, fd in deg[K]:
            add(K, "lap", "lap", cd, fd, fd + 1, fd, [cd, fd])
            if (cd, fd) in ((1, 1), (2, 1)) or th:
                add(K, "lapk", "lap/k", cd, fd, fd + 1, fd, [cd, fd, kmat(d)])
                add(K, "lapf", "lap", cd, fd, fd + 1, fd, [cd, fd])
                add(K, "lapfk", "lap/k", cd, fd, fd + 1, fd, [cd, fd, kmat(d)])
            for gd in sorted({fd, fd + 1} if (cd, fd) in ((1, 1), (2, 1)) or th else {fd}):
                add(K, "vg", "vg", cd, fd, fd + 1, gd, [cd, fd, gd])
        if d == 2 or th:
            add(K, "vgc", "vg", 2, 1, 2, 0, [2, 1, 0, 0, 1], [1] * nf)
        add(K, "vgk", "vg/k", 2, 1, 2, 1, [2, 1, 1, kmat(d)])
        if K != "p2":
            add(K, "vgrt", "vg/rt", 1, 1, 2, 2, [1, 1, 2])
        # uniform but different degrees on cell and faces, through the per-face degrees
        add(K, "lapc", "lap", 2, 1, 2, 1, [2, 1, 0, 1], [1] * nf)
        add(K, "lapc", "lap", 1, 0, 1, 0, [1, 0, 0, 0], [0] * nf)
        for q, kd in (("vlc", "vl"), ("vslc", "vsl")) if d == 2 or th else ():
            add(K, q, kd, 2, 1, 2, 1, [2, 1, 0, 1], [1] * nf)
        for q, kd in (("mgc", "mg"), ("msgc", "msg"), ("divc", "div"), ("vgc", "vg")) if d == 2 or th else (("divc", "div"), ("vgc", "vg")):
            add(K, q, kd, 2, 1, 2, 1, [2, 1, 1, 0, 1], [1] * nf)
        # one face of another degree
        for i0, d0 in ((1, 0), (nf - 1, 2)) if d == 2 or th else ((1, 0),):
            fds = [1] * nf
            fds[i0] = d0
            add(K, "lapc", "lap", 1, 1, 2, 1, [1, 1, i0, d0], fds)
            add(K, "vgc", "vg", 1, 1, 2, 1, [1, 1, 1, i0, d0], fds)
            add(K, "vgkc", "vg/k", 1, 1, 2, 1, [1, 1, 1, i0, d0, kmat(d)], fds)
            if d == 2 or th:
                add(K, "vlc", "vl", 1, 1, 2, 1, [1, 1, i0, d0], fds)
                add(K, "vslc", "vsl", 1, 1, 2, 1, [1, 1, i0, d0], fds)
                add(K, "mgc", "mg", 1, 1, 2, 1, [1, 1, 1, i0, d0], fds)
                add(K, "msgc", "msg", 1, 1, 2, 1, [1, 1, 1, i0, d0], fds)
            add(K, "divc", "div", 1, 1, 2, 1, [1, 1, 1, i0, d0], fds)
        for cd, fd in vdeg[K]:
            add(K, "vl", "vl", cd, fd, fd + 1, fd, [cd, fd])
            add(K, "vsl", "vsl", cd, fd, fd + 1, fd, [cd, fd])
            add(K, "mg", "mg", cd, fd, fd + 1, fd, [cd, fd, fd])
            add(K, "msg", "msg", cd, fd, fd + 1, fd, [cd, fd, fd])
            for gd in (fd, fd + 1):
                add(K, "div", "div", cd, fd, fd + 1, gd, [cd, fd, gd])
            add(K, "divc", "div", cd, fd, fd + 1, 0, [cd, fd, 0, 0, fd], [fd] * nf)
            add(K, "divrhs", "div", cd, fd, fd + 1, fd, [cd, fd, fd])
        if K != "p2":
            add(K, "msgrt", "msg/rt", 1, 1, 2, 2, [1, 1, 2])
        for cd, fd, rd in ((1, 1, 4), (2, 1, 5), (0, 0, 3)) if d == 2 else ((1, 0, 3), (0, 0, 3)):
            add(K, "lapfh", "harm/f", cd, fd, rd, fd, [cd, fd, rd], None, two)
            add(K, "laph", "harm/h", cd, fd, rd, fd, [cd, fd, rd], None, two)
        I = Mat(d, d, [Fr(i == j) for i in range(d) for j in range(d)])
        for cd, fd, rd in ((1, 1, 4), (1, 1, 3)) if d == 2 else ((0, 0, 3),):
            add(K, "sfl", "harm/sfl", cd, fd, rd, fd, [cd, fd, rd, I], None, two)
    return J


NM = {"lap": "scalar reconstruction", "vl": "vector reconstruction", "vsl": "symmetric vector reconstruction",
      "vg": "gradient reconstruction", "mg": "matrix gradient reconstruction", "msg": "symmetric gradient reconstruction",
      "div": "divergence reconstruction", "harm": "harmonic-enriched reconstruction"}


def main(rep):
    tu = front.export(front.PROBES + "/hho.cpp")
    J = jobs(rep.tier)
    order = sorted(range(len(J)), key=lambda i: -cost(J[i][1]))
    res = [None] * len(J)
    for i, r in zip(order, pmap(lambda i: one(tu, J[i][1]), order)):
        res[i] = r
    for (oid, j), r in zip(J, res):
        collect(rep, oid, where_of(tu, j[1] + "_" + j[0]), r,
                "%s (%s, %s, cell degree %d, face degree %d)" % (NM[j[2].partition("/")[0]], j[1], NAME[j[0]], j[3], j[4]))
    return rep.finish(
        "the operator and the local matrix are interpreted in the domain of integrals on concrete cells; the operator must satisfy its "
        "defining equation (integration by parts against every test function, computed independently with exact moments and normals) "
        "entry by entry, the matrix must be the energy of the operator, and interpolates of polynomials must be reproduced",
        ["exact real arithmetic", "quadratures exact for the polynomials they receive (Q03, H03)", "one cell per shape"],
        analysed={"operators": sorted({j[1] for _, j in J}), "functions": len(tu.functions)})


def cost(j):
    K, probe, kind, cd, fd = j[:5]
    from math import comb
    d = DIM[K]
    n = comb(cd + d, d) + {"t2": 3, "p2": 5, "t3": 4}[K] * comb(fd + d - 1, d - 1)
    return (n * (d if kind.partition("/")[0] in VEC else 1)) ** 2 * (3 if d == 3 else 1)
