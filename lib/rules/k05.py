"""K05: logarithmic strain framework.  Projectors and second-order terms are the first and second derivatives of the logarithmic strain for
distinct and repeated eigenvalues; the stress and tangent of a law used with it are the derivatives of its energy."""
from .sym import *
from .k01 import A, X, M, at, mk2, mk4, mm, tp, sc, ad, I2, trace, det, inv, dev, compare
from .k03 import call, hooke, to3, cut, sym_strain, pars
from .g01 import where_of
import front

PROBE = "mech"
F_ = Fraction
HALF = F_(1, 2)
ROTS = {"id": I2(3),
        "rot": [F_(2, 3), F_(-1, 3), F_(2, 3), F_(2, 3), F_(2, 3), F_(-1, 3), F_(-1, 3), F_(2, 3), F_(2, 3)],
        "gen": [F_(2, 7), F_(3, 7), F_(6, 7), F_(3, 7), F_(-6, 7), F_(2, 7), F_(6, 7), F_(2, 7), F_(-3, 7)]}
FS = [[F_(1), F_(1, 2), 0, F_(-1, 3), F_(2), F_(1), F_(1, 4), 0, F_(3, 2)]]
LAMS = {"diff": (2, 3, 5), "diff2": (F_(1, 4), F_(2, 3), 7), "two01": (2, 2, 5), "two12": (2, 3, 3), "two02": (2, 3, 2), "equal": (3, 3, 3), "one": (1, 1, 1), "one01": (1, 1, 4), "one12": (F_(1, 9), 1, 1)}


def f1(a, b):
    """first divided difference of log/2"""
    if a == b:
        return F_(1, 2) / F_(a)
    return X(HALF, A(alg.fn("log", a) if a != 1 else 0, X(-1, alg.fn("log", b) if b != 1 else 0)), 1 / (F_(a) - F_(b)))


def f2(a, b, c):
    if a == b == c:
        return F_(-1, 4) / (F_(a) * F_(a))
    a, b, c = sorted((a, b, c))
    return X(A(f1(a, b), X(-1, f1(b, c))), 1 / (F_(a) - F_(c)))


def eye(k, l):
    return [1 if i == 3 * k + l else 0 for i in range(9)]


class Log:
    """the logarithmic strain of C = Q diag(lam) Q^T and its derivatives"""

    def __init__(self, lam, Q):
        self.lam, self.Q = lam, Q
        self.f1 = [[f1(a, b) for b in lam] for a in lam]
        self.f2 = [[[f2(a, b, c) for c in lam] for b in lam] for a in lam]

    def loc(self, H):
        return mm(mm(tp(self.Q, 3), H, 3), self.Q, 3)

    def glob(self, H):
        return mm(mm(self.Q, H, 3), tp(self.Q, 3), 3)

    def d1(self, H):
        h = self.loc(H)
        return self.glob([X(self.f1[i][j], h[3 * i + j]) for i in range(3) for j in range(3)])

    def d2(self, H, K):
        h, k = self.loc(H), self.loc(K)
        return self.glob([A(*[X(self.f2[i][j][l], A(X(h[3 * i + j], k[3 * j + l]), X(k[3 * i + j], h[3 * j + l]))) for j in range(3)])
                          for i in range(3) for l in range(3)])

    def E(self):
        v = [X(HALF, alg.fn("log", x)) if x != 1 else 0 for x in self.lam]
        return self.glob([v[i] if i == j else 0 for i in range(3) for j in range(3)])


def dot(a, b):
    return A(*[X(x, y) for x, y in zip(a, b)])


def dC(F, D):
    return ad(mm(tp(D, 3), F, 3), mm(tp(F, 3), D, 3))


def sides(L, F, T):
    """derivatives of E and of T:E with respect to F"""
    DF = [eye(k, l) for k in range(3) for l in range(3)]
    DC = [dC(F, d) for d in DF]
    D1 = [L.d1(c) for c in DC]
    P = [D1[3 * k + l][3 * i + j] for i in range(3) for j in range(3) for k in range(3) for l in range(3)]
    TL = []
    for a in range(9):
        for b in range(9):
            mix = ad(mm(tp(DF[a], 3), DF[b], 3), mm(tp(DF[b], 3), DF[a], 3))
            TL.append(A(dot(T, L.d2(DC[a], DC[b])), dot(T, L.d1(mix))))
    return P, TL


def one(tu, job):
    return globals()["k_" + job[0]](tu, *job[1:])


def k_proj(tu, lam, q, f, tl):
    L, F, T = Log(LAMS[lam], ROTS[q]), FS[f], sym_strain("T", 3)
    got = call(tu, "logp", [Seq(T), Seq(F), Seq([F_(x) for x in L.lam]), Seq(L.Q), tl])
    P, TL = sides(L, F, T)
    ok, t = compare(got[:81], P, "projector, eigenvalues %s" % lam, [3] * 4)
    if not ok:
        return ok, t
    return compare(got[81:], TL if tl else [0] * 81, "second derivative, eigenvalues %s" % lam, [3] * 4)


def k_pk2(tu, lam, q, tl):
    L, T = Log(LAMS[lam], ROTS[q]), sym_strain("T", 3)
    got = call(tu, "logp2", [Seq(T), Seq([F_(x) for x in L.lam]), Seq(L.Q), tl])
    S = [[ad(eye(k, l), eye(l, k)) for l in range(3)] for k in range(3)]     # twice the symmetric direction
    D1 = [[L.d1(S[k][l]) for l in range(3)] for k in range(3)]
    P = [D1[k][l][3 * i + j] for i in range(3) for j in range(3) for k in range(3) for l in range(3)]
    ok, t = compare(got[:81], P, "projector of PK2, eigenvalues %s" % lam, [3] * 4)
    if not ok:
        return ok, t
    TL = [dot(T, L.d2(S[i][j], S[k][l])) for i in range(3) for j in range(3) for k in range(3) for l in range(3)] if tl else [0] * 81
    return compare(got[81:], TL, "second derivative of PK2, eigenvalues %s" % lam, [3] * 4)


def k_elog(tu, lam, q):
    L = Log(LAMS[lam], ROTS[q])
    return compare(call(tu, "elog", [Seq([F_(x) for x in L.lam]), Seq(L.Q)]), L.E(), "logarithmic strain, eigenvalues %s" % lam, [3, 3])


STR = {"diff": (2, 3, 5), "diff2": (F_(1, 2), F_(3, 4), 3), "two01": (2, 2, 3), "two12": (F_(1, 2), 3, 3), "equal": (2, 2, 2), "one": (1, 1, 1), "one12": (F_(1, 2), 1, 1), "one01": (1, 1, F_(5, 4))}
# in the plane the third eigenvalue is 1: the sorted values and the place of the 1
STR2 = {"first": (1, 2, 3), "middle": (F_(1, 2), 1, 3), "last": (F_(1, 3), F_(1, 2), 1), "same": (1, 1, 1), "low": (1, 1, 2), "high": (F_(1, 2), 1, 1), "plane": (1, 3, 3)}


def state(N, name, q):
    """(F, sorted eigenvalues of C, eigenvectors)"""
    if N == 3:
        s, Q = STR[name], ROTS[q]
        R = ROTS["gen"]
        R = R if det(R, 3) > 0 else sc(-1, R)
        D = [s[i] if i == j else 0 for i in range(3) for j in range(3)]
        F = mm(mm(R, D, 3), tp(Q, 3), 3)
        if det(F, 3) < 0:
            F = sc(-1, F)
        return F, [F_(x) ** 2 for x in s], Q
    s = STR2[name]
    k = s.index(1)
    v = [i for i in range(3) if i != k]
    c, t = (F_(3, 5), F_(4, 5)) if q != "id" else (F_(1), F_(0))
    Q = [0] * 9
    Q[3 * 2 + k] = 1
    Q[3 * 0 + v[0]], Q[3 * 1 + v[0]] = c, t
    Q[3 * 0 + v[1]], Q[3 * 1 + v[1]] = -t, c
    D = [s[i] if i == j else 0 for i in range(3) for j in range(3)]
    F = mm(mm(Q, D, 3), tp(Q, 3), 3)
    R = [F_(5, 13), F_(12, 13), 0, F_(-12, 13), F_(5, 13), 0, 0, 0, 1]
    return mm(R, F, 3), [F_(x) ** 2 for x in s], Q


def k_law(tu, N, name, q):
    """linear elasticity in the logarithmic strain: stress and tangent"""
    par = pars()
    F, lam, Q = state(N, name, q)
    L = Log(lam, Q)
    C = mm(tp(F, 3), F, 3)
    back = L.glob([lam[i] if i == j else 0 for i in range(3) for j in range(3)])
    if not all(close(a, b) for a, b in zip(C, back)):
        raise Und("state")

    def eig(m):
        if not all(close(m.at(i, j), C[3 * i + j]) for i in range(3) for j in range(3)):
            raise Mismatch("the eigenvalues of a matrix other than F^T F are computed")
        return list(lam), list(Q)
    I = vg.Interp(tu, None)
    I.eig = eig
    I.positive = set(alg.POSITIVE)
    fs = tu.fns("logw_%d" % N)
    if not fs or "body" not in fs[0]:
        raise Und("probe logw_%d does not compile against this tree" % N)
    try:
        got = [vg.num(x) for x in I.call_fn(fs[0], [I.new(Seq(par)), I.new(Seq(cut(F, N)))]).e]
    except Mismatch as ex:
        return False, str(ex)
    T = hooke(par, L.E())
    P, TL = sides(L, F, T)
    p = lambda i, j, k, l: at(P, 3, i, j, k, l)
    pk1 = [A(*[X(T[3 * i + j], p(i, j, k, l)) for i in range(3) for j in range(3)]) for k in range(3) for l in range(3)]
    n = N * N
    ok, t = compare(got[:n], cut(pk1, N), "log strain with linear elasticity in %dD: stress" % N, [N, N])
    if not ok:
        return ok, t
    ok, t = compare(got[n + n * n:], cut(pk1, N), "log strain with linear elasticity in %dD: stress recomputed" % N, [N, N])
    if not ok:
        return ok, t
    Pk = [[[p(i, j, k, l) for i in range(3) for j in range(3)] for l in range(3)] for k in range(3)]
    HP = [[hooke(par, Pk[k][l]) for l in range(N)] for k in range(N)]
    tan = [A(dot(Pk[i][j], HP[k][l]), at(TL, 3, i, j, k, l)) for i in range(N) for j in range(N) for k in range(N) for l in range(N)]
    return compare(got[n:n + n * n], tan, "log strain with linear elasticity in %dD: tangent" % N, [N] * 4)


class Mismatch(Exception):
    pass


def k_det(tu, N, J):
    """an element that is inverted or nearly flat is refused"""
    F = I2(N)
    F[0] = J
    I = vg.Interp(tu, None)
    I.eig = lambda m: ([F_(J) ** 2, 1, 1], I2(3))
    try:
        I.call_fn(tu.fns("logw_%d" % N)[0], [I.new(Seq([1] * 5)), I.new(Seq(F))])
    except Thrown:
        return True, "refused"
    return False, "a deformation of determinant %s is accepted in %dD" % (J, N)


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for lam in LAMS:
        for q in ROTS:
            J.append(("strain/%s/%s" % (lam, q), ("elog", lam, q)))
            for tl in (1, 0):
                if tl and q == "gen" and not deep:
                    continue
                J.append(("projector/%s/%s/%d" % (lam, q, tl), ("proj", lam, q, 0, tl)))
                J.append(("pk2/%s/%s/%d" % (lam, q, tl), ("pk2", lam, q, tl)))
    for name in STR:
        for q in ("id", "rot") + (("gen",) if deep else ()):
            J.append(("law/3d/%s/%s" % (name, q), ("law", 3, name, q)))
    for name in STR2:
        for q in ("id", "rot"):
            J.append(("law/2d/%s/%s" % (name, q), ("law", 2, name, q)))
    for N in (2, 3):
        for j in (-1, F_(-1, 1000)):
            J.append(("inverted/%d/%s" % (N, float(j)), ("det", N, j)))
    return J


def probe_of(j):
    return {"proj": "logp", "pk2": "logp2", "elog": "elog"}.get(j[0]) or "logw_%d" % j[1]


def main(rep):
    tu = front.export(front.PROBES + "/mech.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, probe_of(j)), r, "logarithmic strain")
    return rep.finish(
        "the projectors are interpreted with symbolic stress for every pattern of equal eigenvalues and compared with the "
        "divided-difference form of the derivatives of log(C)/2; the stress and tangent of the linear law in logarithmic strain are "
        "compared with the derivatives of its energy",
        ["eigenvalues and rotations are the listed rationals; the eigen decomposition of Eigen is assumed correct and sorted"],
        analysed={"functions": len(tu.functions), "patterns": sorted(LAMS)})
