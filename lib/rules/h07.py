"""H07: the operators for the curl are the documented ones and commute with the interpolation"""
import front
from .hlib import *

from .g01 import where_of

PROBE = "hhocurl"
# a tetrahedron whose face frames and normals are rational: the base is a 3-4-5 triangle and the apex stands above its incentre
TET = [rot(ROT3, q, (Fr(1, 2), Fr(-1, 3), Fr(2))) for q in [(1, 1, Fr(4, 3)), (0, 0, 0), (3, 0, 0), (0, 4, 0)]]


# ------------------------------------------------------------------ vector calculus on polynomials
def curl(f):
    a, c, e = f
    return [padd(deriv(e, 1), deriv(c, 2), -1), padd(deriv(a, 2), deriv(e, 0), -1), padd(deriv(c, 0), deriv(a, 1), -1)]


def crossn(f, n):
    """f x n"""
    s = lambda p, k: pscale(p, k)
    return [padd(s(f[1], n[2]), s(f[2], n[1]), -1), padd(s(f[2], n[0]), s(f[0], n[2]), -1), padd(s(f[0], n[1]), s(f[1], n[0]), -1)]


def tang(f, n):
    """n x (f x n): the tangential part"""
    fn = {}
    for p, a in zip(f, n):
        fn = padd(fn, p, a)
    return [padd(p, fn, -a) for p, a in zip(f, n)]


class Tan(Spc):
    """vector cell unknowns, tangential face unknowns (kind: tfb full, nfb Nedelec)"""

    def __init__(self, C, cd, fd, kind="tfb"):
        Spc.__init__(self, C, cd, 0, True) if False else None
        self.C, self.cd, self.vec = C, cd, True
        K = C.K
        self.cb = C.basis("vcb_" + K, [cd])
        nf = int(C.call("nf_" + K, [C.pts()]))
        self.faces, self.normals, self.fb, self.off = [], [], [], []
        n = len(self.cb)
        for i in range(nf):
            pts = C.call("fpts_" + K, [C.pts(), i])
            el = meas.Elem([[tuple(Fr(vg.num(c)) for c in vec_(p)) for p in pts.e]], "face %d" % i)
            self.faces.append(el)
            self.normals.append(outward(C, el))
            self.fb.append(C.basis(kind + "_" + K, [i, fd]))
            self.off.append(n)
            n += len(self.fb[-1])
        self.cell = C.elem(range(len(C.P)))
        self.n = n
        self.memo = {}

    def interp(self, g):
        key = repr(g)
        if key not in self.memo:
            out = l2(self.cell, self.cb, g)
            for el, n, fb in zip(self.faces, self.normals, self.fb):
                out += l2(el, fb, tang(g, n))
            self.memo[key] = out
        return self.memo[key]


def unit(m, q):
    return [{m: Fr(1)} if c == q else {} for c in range(3)]


def fields(k):
    return [(m, q) for m in mono(3, k) for q in range(3)]


def field(m, q):
    return vg.Seq(list(m)), q


# ------------------------------------------------------------------ jobs
def one(tu, job):
    kind = job[0]
    if kind == "algebra":
        return algebra(tu, job)
    C = Ctx(tu, job[1], job[-1] if callable(job[-1]) else two_h, P=TET if job[1] == "t3" else None)
    r = globals()["do_" + kind](C, *[a for a in job[2:] if not callable(a)])
    if r[0]:
        w = slack(C)
        if w:
            return False, "%s, at %s" % (w[0][1], w[0][0].where)
    return r


def operator(S, mats, fam, A, B, drop):
    oper, data = [as_rows(m) for m in mats[:2]]
    if len(oper) != len(fam) or len(oper[0]) != S.n:
        return False, "the operator has shape %dx%d for a space of %d functions and %d unknowns" % (len(oper), len(oper[0]), len(fam), S.n)
    w = diff_at(mm(A, oper), B)
    if w:
        return False, "the defining equation fails for test function %d and %s" % (w[0], names(S, w[1]))
    w = diff_at(data, mm(tr(oper), B))
    if w:
        return False, "the local matrix is not the energy of the reconstruction: entry (%s, %s)" % (names(S, w[0]), names(S, w[1]))
    return None


def do_rec2(C, cd, fd, rd):
    """scalar curl in the plane"""
    S = Spc(C, cd, fd)
    mats = pair(C.call("rec_" + C.K, [C.pts(), cd, fd, rd]))
    fam = C.basis("cb_" + C.K, [rd])[1:]
    cu = [[deriv(f[0], 1), pscale(deriv(f[0], 0), -1)] for f in fam]
    idx = {id(f): i for i, f in enumerate(fam)}
    A = gram(S.cell, cu)
    # (curl v, curl t) = (v, curl curl t) + sum (v, curl t x n)
    B = by_parts(S, lambda t: [padd(pscale(deriv(deriv(t[0], 0), 0), -1), deriv(deriv(t[0], 1), 1), -1)],
                 lambda t, n: [padd(pscale(cu[idx[id(t)]][0], n[1]), cu[idx[id(t)]][1], -n[0])], fam)
    bad = operator(S, mats, fam, A, B, 1)
    if bad:
        return bad
    for m in mono(2, min(rd, fd + 1)) if cd >= rd - 2 else []:
        p = [{m: Fr(1)}]
        want = coeffs(C.basis("cb_" + C.K, [rd]), p)[1:]
        got = mm(as_rows(mats[0]), [[x] for x in S.interp(p)])
        if any(not alg.eq(a[0], b_) for a, b_ in zip(got, want)):
            return False, "the curl of the interpolate of the monomial %s is not reproduced" % (m,)
    return True, "%d unknowns, %d functions" % (S.n, len(fam))


def do_rec(C, cd, fd, rd):
    S = Tan(C, cd, fd)
    mats = pair(C.call("rec_" + C.K, [C.pts(), cd, fd, rd]))
    fam = C.basis("vcb_" + C.K, [rd])[3:]
    cu = [curl(f) for f in fam]
    idx = {id(f): i for i, f in enumerate(fam)}
    A = gram(S.cell, cu)
    B = by_parts(S, lambda t: curl(cu[idx[id(t)]]), lambda t, n: crossn(cu[idx[id(t)]], n), fam)
    bad = operator(S, mats, fam, A, B, 3)
    if bad:
        return bad
    oper = as_rows(mats[0])
    for m, q in fields(min(rd, fd + 1)) if cd >= rd - 2 else []:
        p = unit(m, q)
        R = [r[0] for r in mm(oper, [[x] for x in S.interp(p)])]
        c = [{}, {}, {}]
        for a, f in zip(R, cu):
            c = [padd(x, y, a) for x, y in zip(c, f)]
        if any(padd(x, y, -1) for x, y in zip(c, curl(p))):
            return False, "the curl of the interpolate of the monomial %s, component %d, is not reproduced" % (m, q)
    return True, "%d unknowns, %d functions" % (S.n, len(fam))


def do_proj(C, which, cd, fd, rd):
    """reconstruction of the curl itself"""
    S = Tan(C, cd, fd, "tfb" if which == "pk" else "nfb")
    mats = pair(C.call("%s_%s" % (which, C.K), [C.pts(), cd, fd, rd]))
    fam = C.basis("vcb_" + C.K, [rd])
    A = gram(S.cell, fam)
    B = by_parts(S, curl, crossn, fam)
    bad = operator(S, mats, fam, A, B, 0)
    if bad:
        return bad
    oper = as_rows(mats[0])
    if cd >= rd - 1 and fd >= rd + (which == "ned"):
        for m, q in fields(rd + 1):
            p = unit(m, q)
            got = mm(oper, [[x] for x in S.interp(p)])
            if any(not alg.eq(a[0], b_) for a, b_ in zip(got, coeffs(fam, curl(p)))):
                return False, "the curl of the monomial %s, component %d, is not reproduced" % (m, q)
    return True, "%d unknowns, %d functions" % (S.n, len(fam))


def stab_ref(S, rows, scale):
    """sum over the faces of scale * || rows ||^2, rows(i) the operator of face i into its space"""
    n = S.n
    out = [[0] * n for _ in range(n)]
    for i, (el, fb) in enumerate(zip(S.faces, S.fb)):
        R = rows(i)
        M = gram(el, fb)
        out = madd(out, scal(mm(tr(R), mm(M, R)), scale(i)))
    return out


def jump(S, i, trace):
    """v_F - trace projection of v_T"""
    R = [[0] * S.n for _ in S.fb[i]]
    for j, c in enumerate(S.cb):
        for k, x in enumerate(l2(S.faces[i], S.fb[i], trace(c, S.normals[i]))):
            R[k][j] = -x
    for k in range(len(S.fb[i])):
        R[k][S.off[i] + k] = Fr(1)
    return R


def do_hdg(C, which, cd, fd):
    S = Spc(C, cd, fd) if C.dim == 2 else Tan(C, cd, fd, "nfb" if which == "hdgn" else "tfb")
    got = as_rows(C.call("%s_%s" % (which, C.K), [C.pts(), cd, fd]))
    if C.dim == 2:
        sc = lambda i: alg.inv(C.h(sorted(C.P.index(tuple(q)) for q in S.faces[i].s[0])))
    else:
        sc = lambda i: Fr(1) if which == "hdg" else alg.inv(HT)
    want = stab_ref(S, lambda i: jump(S, i, (lambda f, n: f) if C.dim == 2 else tang), sc)
    w = diff_at(got, want)
    if w:
        return False, "entry (%s, %s) is not that of the jumps" % (names(S, w[0]), names(S, w[1]))
    return True, "%d unknowns" % S.n


HT = Fr(3)


def two_h(ids):
    """value given to the diameter of the element with these point ids"""
    return HT


def face_h2(ids):
    return {(0, 1): Fr(2), (0, 2): Fr(3), (1, 2): Fr(4)}.get(tuple(ids), HT)


def do_zst(C, cd, fd):
    S = Tan(C, cd, fd)
    jw, z = Fr(7, 3), Fr(5, 2)
    got = as_rows(C.call("zst_" + C.K, [C.pts(), cd, fd, Fr(2), jw, z]))
    want = stab_ref(S, lambda i: jump(S, i, tang), lambda i: (jw / z) ** 2)
    w = diff_at(got, want)
    if w:
        return False, "entry (%s, %s) is not that of the jumps scaled by the admittance" % (names(S, w[0]), names(S, w[1]))
    return True, "%d unknowns" % S.n


def do_hst(C, cd, fd):
    """the stabilisation with the reconstruction, for an arbitrary reconstruction operator"""
    S = Tan(C, cd, fd)
    rb = C.basis("vcb_" + C.K, [fd + 1])
    nr = len(rb) - 3
    R = [[Fr((7 * i + 5 * j + i * j) % 11 - 5, 3) for j in range(S.n)] for i in range(nr)]
    got = as_rows(C.call("hst_" + C.K, [C.pts(), cd, fd, Mat(nr, S.n, [x for r in R for x in r])]))
    PC = tr([l2(S.cell, S.cb, f) for f in rb[3:]])
    D = mm(PC, R)                                        # Pi_T R - v_T
    for j in range(len(S.cb)):
        D[j][j] -= 1

    def rows(i):
        el, fb, n = S.faces[i], S.fb[i], S.normals[i]
        PR = tr([l2(el, fb, tang(f, n)) for f in rb[3:]])
        PT = tr([l2(el, fb, tang(f, n)) for f in S.cb])
        out = madd(mm(PT, D), mm(PR, R), -1)
        for k in range(len(fb)):
            out[k][S.off[i] + k] += 1
        return out
    want = stab_ref(S, rows, lambda i: alg.inv(HT))
    w = diff_at(got, want)
    if w:
        return False, "entry (%s, %s) is not that of the face residuals of the reconstruction" % (names(S, w[0]), names(S, w[1]))
    return True, "%d unknowns" % S.n


def do_terms(C, what, cd, fd):
    S = Tan(C, cd, fd)
    P = C.pts()
    if what == "mass":
        got = as_rows(C.call("mass_t3", [P, cd, fd]))
        G = gram(S.cell, S.cb)
        k = len(S.cb)
        want = [[G[i][j] if i < k and j < k else 0 for j in range(S.n)] for i in range(S.n)]
        return diff_at(got, want) is None, "the mass operator"
    if what == "cc":
        cu = [curl(f) for f in S.cb]
        return diff_at(as_rows(C.call("cc_t3", [P, cd])), gram(S.cell, cu)) is None, "the curl-curl matrix"
    if what == "impf":
        for i in range(4):
            if diff_at(as_rows(C.call("impf_t3", [P, i, fd])), gram(S.faces[i], S.fb[i])):
                return False, "the impedance term of face %d" % i
        return True, "4 faces"
    if what == "imp":
        z = Fr(5, 3)
        for bid in (5, 6, 7):
            Y, y = pair(C.call("imp_t3", [P, cd, fd, bid, z]))
            want = [[0] * S.n for _ in range(S.n)]
            wy = [0] * S.n
            for i in range(4):
                if i != 3 and i // 2 + 5 == bid:
                    G = gram(S.faces[i], S.fb[i])
                    for a in range(len(G)):
                        wy[S.off[i] + a] = z * integral(S.faces[i], S.fb[i][a][2])
                        for c in range(len(G)):
                            want[S.off[i] + a][S.off[i] + c] = z * G[a][c]
            if diff_at(as_rows(Y), want) or diff_at(as_rows(y), [[x] for x in wy]):
                return False, "the impedance terms of the boundary %d" % bid
        return True, "3 boundary numbers"
    if what == "pwf":
        for i in range(4):
            for m, q in fields(fd):
                Y, y = pair(C.call("pwf_t3", [P, i, fd, *field(m, q)]))
                if diff_at(as_rows(Y), gram(S.faces[i], S.fb[i])) or diff_at(as_rows(y), [[integral(S.faces[i], dot(f, unit(m, q)))] for f in S.fb[i]]):
                    return False, "the plane-wave term of face %d for the field %s, component %d" % (i, m, q)
        return True, "4 faces, fields up to degree %d" % fd
    raise Und(what)


def do_interp(C, which, cd, fd):
    S = Tan(C, cd, fd, "nfb" if which == "ptn" else "tfb")
    P = C.pts()
    for m, q in fields(max(cd, fd) if which == "pt" else min(cd, fd) if which == "mprj" else fd):
        p = unit(m, q)
        want = S.interp(p)
        if which == "ptf":
            for i in range(4):
                got = [r[0] for r in as_rows(C.call("ptf_t3", [P, i, fd, *field(m, q), 4]))]
                if len(got) != len(S.fb[i]) or any(not alg.eq(a, x) for a, x in zip(got, want[S.off[i]:])):
                    return False, "the tangential projection on face %d of the field %s, component %d" % (i, m, q)
            continue
        got = [r[0] for r in as_rows(C.call(which + "_t3", [P, cd, fd, *field(m, q)] + ([4] if which != "mprj" else [])))]
        if len(got) != S.n or any(not alg.eq(a, x) for a, x in zip(got, want)):
            return False, "the interpolate of the field %s, component %d" % (m, q)
    return True, "%d unknowns" % S.n


def algebra(tu, job):
    what = job[1]
    C = Ctx(tu, "t3")
    if what.startswith(("nxv", "vxn")):
        d = int(what[-1])
        n = [alg.var("n%d" % i) for i in range(d)]
        F = [[alg.var("f%d%d" % (i, j)) for j in range(d)] for i in range(3)]
        got = as_rows(C.call(what, [Mat(d, 1, n), Mat(3, d, [x for r in F for x in r])][::1 if what[0] == "n" else -1]))

        def cr(a, b_):
            m, s = alg.mul, alg.sub
            if d == 2:
                return [s(m(a[0], b_[1]), m(a[1], b_[0]))]
            return [s(m(a[1], b_[2]), m(a[2], b_[1])), s(m(a[2], b_[0]), m(a[0], b_[2])), s(m(a[0], b_[1]), m(a[1], b_[0]))]
        want = [cr(n, f) if what[0] == "n" else cr(f, n) for f in F]
        return diff_at(got, want) is None, "row-wise cross product"
    t, f = job[2], job[3]
    n = t + f
    G = [[Fr((3 * i + 7 * j + i * j * j) % 13 - 6, 2) for j in range(n)] for i in range(n)]
    A = [[sum(G[i][k] * G[j][k] for k in range(n)) + (5 if i == j else 0) for j in range(n)] for i in range(n)]
    for i in range(t):
        for j in range(t, n):
            A[i][j] += Fr(i + 2 * j, 3)                # an unsymmetric coupling
    bvec = [[alg.var("b%d" % i)] for i in range(n)]
    x = solve(A, bvec)
    mat = lambda R: Mat(len(R), len(R[0]), [v for r in R for v in r])
    if what == "cond":
        LC, bC = pair(C.call("cond", [mat(A), mat(bvec), t]))
        LC, bC = as_rows(LC), as_rows(bC)
        if len(LC) != f or diff_at(solve(LC, bC), x[t:]):
            return False, "the condensed system has another solution than the full one"
        if diff_at(as_rows(C.call("condm", [mat(A), t])), LC):
            return False, "the two condensations give different matrices"
        return True, "%d+%d unknowns" % (t, f)
    if what == "decond":
        r = as_rows(C.call("decond", [mat(A), mat(bvec), mat(x[t:])]))
        return diff_at(r, x) is None, "the recovered solution is not that of the full system"
    if what == "decondm":
        U = [[Fr(i - 2 * j, 5) for j in range(2)] for i in range(f)]
        r = as_rows(C.call("decondm", [mat(A), mat(U)]))
        AT = [a[:t] for a in A[:t]]
        low = solve(AT, scal(mm([a[t:] for a in A[:t]], U), -1))
        return diff_at(r, low + U) is None, "the recovered vectors do not solve the cell equations"
    raise Und(what)


def jobs(tier):
    th = tier == "thorough"
    J = []

    def add(oid, *j):
        J.append((oid, j))
    for K in ("t2", "p2"):
        for cd, fd, rd in [(0, 0, 1), (1, 1, 2), (2, 1, 2), (1, 0, 1)] + ([(2, 2, 3), (3, 2, 3)] if th else []):
            add("rec2/%s/%d%d%d" % (K, cd, fd, rd), "rec2", K, cd, fd, rd)
    for cd, fd in [(0, 0), (1, 1), (2, 1), (1, 0)] + ([(2, 2)] if th else []):
        add("hdg/t2/%d%d" % (cd, fd), "hdg", "t2", "hdg", cd, fd, face_h2)
    K = "t3"
    for cd, fd, rd in [(0, 0, 1), (1, 0, 1), (1, 1, 2)] + ([(2, 1, 2)] if th else []):
        add("rec/t3/%d%d%d" % (cd, fd, rd), "rec", K, cd, fd, rd)
    for cd, fd, rd in [(0, 0, 0), (1, 1, 1), (1, 1, 0), (1, 0, 1)] + ([(2, 1, 1), (2, 2, 2)] if th else []):
        add("pk/t3/%d%d%d" % (cd, fd, rd), "proj", K, "pk", cd, fd, rd)
    for cd, fd, rd in [(1, 1, 0), (1, 1, 1), (0, 1, 0)] + ([(1, 2, 1), (2, 2, 2)] if th else []):
        add("ned/t3/%d%d%d" % (cd, fd, rd), "proj", K, "ned", cd, fd, rd)
    for cd, fd in [(0, 0), (1, 1), (1, 0)] + ([(2, 1)] if th else []):
        add("hdg/t3/%d%d" % (cd, fd), "hdg", K, "hdg", cd, fd, two_h)
        add("zst/t3/%d%d" % (cd, fd), "zst", K, cd, fd, two_h)
    for cd, fd in [(0, 1), (1, 1)] + ([(2, 2)] if th else []):
        add("hdgn/t3/%d%d" % (cd, fd), "hdg", K, "hdgn", cd, fd, two_h)
    for cd, fd in [(0, 0), (1, 0)] + ([(1, 1)] if th else []):
        add("hst/t3/%d%d" % (cd, fd), "hst", K, cd, fd, two_h)
    for w in ("mass", "cc", "impf", "imp", "pwf"):
        for cd, fd in [(1, 1), (1, 0)] + ([(2, 1), (1, 2)] if th else []):
            add("%s/t3/%d%d" % (w, cd, fd), "terms", K, w, cd, fd)
    for w in ("pt", "ptf", "ptn", "mprj"):
        for cd, fd in [(1, 1)] + ([(1, 0)] if w != "ptn" else []) + ([(0, 1)] if th else []):
            add("%s/t3/%d%d" % (w, cd, fd), "interp", K, w, cd, fd)
    for w in ("nxv3", "vxn3", "nxv2", "vxn2"):
        add(w, "algebra", w)
    for w in ("cond", "decond", "decondm"):
        for t, f in ((2, 3), (3, 1), (1, 4)):
            add("%s/%d%d" % (w, t, f), "algebra", w, t, f)
    return J


TITLE = {"rec2": "energy reconstruction of the scalar curl", "rec": "energy reconstruction of the curl", "pk": "reconstruction of the curl on full face spaces",
         "ned": "reconstruction of the curl on Nedelec face spaces", "hdg": "HDG stabilisation of the curl", "hdgn": "HDG stabilisation on Nedelec face spaces",
         "zst": "admittance-weighted stabilisation", "hst": "HHO stabilisation of the curl", "mass": "vector mass operator", "cc": "curl-curl matrix",
         "impf": "impedance term of a face", "imp": "impedance term of a boundary", "pwf": "plane-wave term", "pt": "tangential projection",
         "ptf": "tangential projection on a face", "ptn": "tangential projection on Nedelec face spaces", "mprj": "complex tangential projection",
         "nxv3": "cross product n x v", "vxn3": "cross product v x n", "nxv2": "cross product n x v in the plane", "vxn2": "cross product v x n in the plane",
         "cond": "static condensation with a vector load", "decond": "recovery of the cell unknowns", "decondm": "recovery of the cell unknowns of several vectors"}


def weight(oid):
    w, _, d = oid.rpartition("/")
    return sum(int(c) + 1 for c in d if c.isdigit()) * (3 if "t3" in w else 1) + (5 if w[:3] in ("rec", "pk/", "ned") else 0)


def main(rep):
    tu = front.export(front.PROBES + "/hhocurl.cpp")
    J = sorted(jobs(rep.tier), key=lambda j: -weight(j[0]))
    res = dict(zip([o for o, _ in J], pmap(lambda j: one(tu, j[1]), J)))
    for oid, j in sorted(J):
        w = oid.split("/")[0]
        fn = oid.split("/")[0] if j[0] == "algebra" else "%s_%s" % ("rec" if j[0] == "rec2" else w, j[1])
        collect(rep, oid, where_of(tu, fn), res[oid], "%s (%s)" % (TITLE[w], oid))
    return rep.finish(
        "the operators are interpreted in the domain of integrals on concrete cells with rational normals and face frames; the reconstructions must satisfy "
        "their defining equations against every test function, with exact moments and normals computed independently, and reproduce the curl of every polynomial "
        "up to the order; stabilisations and terms must equal the sums over faces written out from their definition; every quadrature request must suffice",
        ["quadratures are exact up to the requested degree (Q03)", "the inertia axes are some orthonormal frame", "a singular consistent system has some solution"],
        analysed={"cells": ["triangle", "pentagon", "tetrahedron over a 3-4-5 triangle"]})
