"""V01: the virtual element method in two dimensions: numbering of the unknowns and the local matrices"""
import front
from .sym import *
from . import hlib
from .hlib import Ctx, Fr, SHAPES, integral, dot as pdot, deriv
from .g01 import where_of
from .h02 import STAR

PROBE = "fem"
BOX = [(Fr(1, 2), Fr(-1, 3)), (Fr(7, 2), Fr(-1, 3)), (Fr(1, 2), Fr(5, 3)), (Fr(7, 2), Fr(5, 3))]
CW = [SHAPES["t2"][0], SHAPES["t2"][2], SHAPES["t2"][1]]
POINTS = {"t2": SHAPES["t2"], "t2cw": CW, "q2": BOX, "p2": SHAPES["p2"]}
GLL = {1: [-1, 1], 2: [-1, 0, 1], 3: [-1, -(0.2 ** 0.5), 0.2 ** 0.5, 1], 4: [-1, -((3 / 7) ** 0.5), 0, (3 / 7) ** 0.5, 1]}
WGT = {1: [1, 1], 2: [1 / 3, 4 / 3, 1 / 3], 3: [1 / 6, 5 / 6, 5 / 6, 1 / 6], 4: [1 / 10, 49 / 90, 64 / 90, 49 / 90, 1 / 10]}
EDGES = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)]
CELLS = [(0, 1, 4), (0, 3, 4), (1, 2, 4), (2, 3, 4)]


class V(Ctx):
    def __init__(self, tu, K):
        hlib.DIM.setdefault("q2", 2)
        self.key = K[:2]
        hlib.DIM.setdefault(self.key, 2)
        super().__init__(tu, self.key, None, None, POINTS[K])
        self.n = len(self.P)
        self.cyc = [0, 1, 3, 2] if self.key == "q2" else list(range(self.n))

    def elem(self, ids):
        ids = list(ids)
        if len(ids) == 4 and self.key == "q2":
            ids = [0, 1, 3, 2]
        return super().elem(ids)

    def run(self, fn, *args): return self.call("%s_%s" % (fn, self.key), [self.pts()] + list(args))

    def fam(self, d): return [f[0] for f in self.basis("v_cb_" + self.key, [d])]


class N:
    """dense real matrices"""
    def __init__(self, rows, c=None):
        self.m = [[float(x) for x in r] for r in rows]
        self.shape = (len(self.m), len(self.m[0]) if self.m else c or 0)

    @staticmethod
    def zeros(r, c): return N([[0.0] * c for _ in range(r)], c)

    @staticmethod
    def eye(n): return N([[float(i == j) for j in range(n)] for i in range(n)], n)

    @property
    def T(self): return N([list(c) for c in zip(*self.m)], self.shape[0]) if self.m else N([[] for _ in range(self.shape[1])])
    def __matmul__(self, o):
        c = list(zip(*o.m)) if o.m else [()] * o.shape[1]
        return N([[sum(a * b for a, b in zip(r, k)) for k in c] for r in self.m], o.shape[1])
    def __add__(self, o): return N([[a + b for a, b in zip(r, s)] for r, s in zip(self.m, o.m)], self.shape[1])
    def __sub__(self, o): return N([[a - b for a, b in zip(r, s)] for r, s in zip(self.m, o.m)], self.shape[1])
    def max(self): return max((abs(x) for r in self.m for x in r), default=0.0)
    def copy(self): return N(self.m, self.shape[1])
    def rows(self, n): return N(self.m[:n], self.shape[1])
    def cols(self, n): return N([r[:n] for r in self.m], n)

    def echelon(self, n, tol):
        A, r = [list(x) for x in self.m], 0
        for c in range(n):
            p = max(range(r, len(A)), key=lambda i: abs(A[i][c]), default=None)
            if p is None or abs(A[p][c]) <= tol:
                continue
            A[r], A[p] = A[p], A[r]
            A[r] = [x / A[r][c] for x in A[r]]
            for i in range(len(A)):
                if i != r and A[i][c]:
                    A[i] = [x - A[i][c] * y for x, y in zip(A[i], A[r])]
            r += 1
        return A, r

    def rank(self, tol=1e-7): return self.echelon(self.shape[1], tol * self.max())[1]

    def solve(self, B):
        n = len(self.m)
        A, r = N([a + b for a, b in zip(self.m, B.m)]).echelon(n, 0)
        return N([x[n:] for x in A])


def arr(v): return N([[float(vg.num(v.e[i * v.c + j])) for j in range(v.c)] for i in range(v.r)], v.c)
def val(p, x): return sum(float(c) * float(x[0]) ** m[0] * float(x[1]) ** m[1] for m, c in p.items())


def differ(A, B, what, tol=1e-9):
    if A.shape != B.shape:
        return "%s is %dx%d instead of %dx%d" % ((what,) + A.shape + B.shape)
    s = max(1.0, B.max())
    for i, (r, t) in enumerate(zip(A.m, B.m)):
        for j, (x, y) in enumerate(zip(r, t)):
            if not abs(x - y) <= tol * s:
                return "%s: entry (%d, %d) is %.10g instead of %.10g" % (what, i, j, x, y)


def loop(K, V_):
    """(start, end) of the sides in the order of faces_ccw"""
    r = V_.run("v_ccw")
    out = []
    for f in r.e:
        a, b, fl = [int(vg.num(x)) for x in f.e]
        out.append((b, a) if fl else (a, b))
    return out


def sides_ok(S, n, cyc):
    if len(S) != n:
        return "%d sides instead of %d" % (len(S), n)
    for (a, b), (c, d) in zip(S, S[1:] + S[:1]):
        if b != c:
            return "side %d-%d is followed by side %d-%d" % (a, b, c, d)
    if len(set(a for a, b in S)) != n:
        return "a vertex is met twice"
    k = len(cyc)
    for a, b in S:
        if (cyc.index(b) - cyc.index(a)) % k not in (1, k - 1):
            return "%d-%d is not a side" % (a, b)


def reference(v, d, S):
    """D, B, G and the mass matrix of P^{d-1}, from their definitions"""
    el = v.elem(range(v.n))
    F = v.fam(d)
    L = v.fam(d - 2) if d > 1 else []
    P = [[float(x) for x in p] for p in v.P]
    n, lbs = len(F), len(L)
    nb = v.n * d
    area = float(integral(el, {(0, 0): 1}))
    I = lambda p, q: float(integral(el, pdot([p], [q])))
    D = [[0.0] * n for _ in range(nb + lbs)]
    B = [[0.0] * (nb + lbs) for _ in range(n)]
    for s, (a, b) in enumerate(S):
        e = [P[b][0] - P[a][0], P[b][1] - P[a][1]]
        c = [sum(x) / v.n for x in zip(*P)]
        nrm = [e[1], -e[0]]                       # times the length
        if sum((m - q) * w for m, q, w in zip(P[a], c, nrm)) < 0:
            nrm = [-x for x in nrm]
        for q, (t, w) in enumerate(zip(GLL[d], WGT[d])):
            x = [P[a][k] + (t + 1) / 2 * e[k] for k in (0, 1)]
            i = (s * d + q) % nb
            for j in range(n):
                if q < d:
                    D[i][j] = val(F[j], x)
                B[j][i] += w / 2 * sum(nrm[k] * val(deriv(F[j], k), x) for k in (0, 1))
    for i in range(lbs):
        for j in range(n):
            D[nb + i][j] = I(L[i], F[j]) / area
    for j in range(n):
        lap = {}
        for k in (0, 1):
            for m, c in deriv(deriv(F[j], k), k).items():
                lap[m] = lap.get(m, 0) + c
        lap = {m: c for m, c in lap.items() if c}
        if lap:
            for i, c in enumerate(hlib.coeffs([[p] for p in L], [lap])):
                B[j][nb + i] -= float(c) * area
    G = [[sum(I(deriv(F[i], k), deriv(F[j], k)) for k in (0, 1)) for j in range(n)] for i in range(n)]
    one = {(0, 0): Fr(1)}
    if d == 1:
        B[0] = [1.0 / v.n] * nb
        G[0] = [sum(val(f, p) for p in P) / v.n for f in F]
    else:
        B[0] = [float(i == nb) for i in range(nb + lbs)]
        G[0] = [I(one, f) / area for f in F]
    pb = [i for i, f in enumerate(F) if max((sum(m) for m in f), default=0) < d]
    H = [[I(F[i], F[j]) for j in pb] for i in pb]
    return F, N(D), N(B), N(G), N(H), area, nb, lbs


def one(tu, job):
    kind = job[0]
    if kind in ("map", "schur", "deschur"):
        return globals()["k_" + kind](tu, *job[1:])
    v = V(tu, job[1])
    S = loop(job[1], v)
    e = sides_ok(S, v.n, v.cyc)
    if e or kind == "ccw":
        return e is None, e or "%d sides" % v.n
    d = job[2]
    F, D, B, G, H, area, nb, lbs = reference(v, d, S)
    if kind in "GBD":
        e = differ(arr(v.run("v_" + kind, d)), {"G": G, "B": B, "D": D}[kind], "matrix_" + kind)
        # the reference itself has to be consistent
        if not e and (B @ D - G).max() > 1e-8 * max(1, G.max()):
            return False, "reference matrices inconsistent"
        return e is None, e or "matrix_" + kind
    PN = G.solve(B)
    if kind == "PN":
        e = differ(arr(v.run("v_PN", d)), PN, "projector_nabla")
        return e is None, e or "projector_nabla"
    if kind == "P0":
        P0 = arr(v.run("v_P0", d))
        n0 = H.shape[0]
        if P0.shape != (n0, nb + lbs):
            return False, "projector_zero is %dx%d" % P0.shape
        e = differ(P0 @ D.cols(n0), N.eye(n0), "projector_zero on the polynomials")
        if not e and d > 1:
            M = N([[area * (j == nb + i) for j in range(nb + lbs)] for i in range(lbs)])
            e = differ((H @ P0).rows(lbs), M, "moments of projector_zero")
        return e is None, e or "projector_zero"
    if kind == "loc":
        n, m = nb + lbs, len(F)
        el = v.elem(range(v.n))
        Gt = G.copy()
        Gt.m[0] = [0.0] * m
        R = N.eye(n) - D @ PN
        W = PN.T @ Gt @ PN + R.T @ R
        P0 = None
        for ex in hlib.mono(2, d + 1 if d < 3 else 2):
            r = v.run("v_loc", d, Seq(list(ex)))
            L, b = (list(r.f.values()) if isinstance(r, Obj) else r.e)
            L, b = arr(L), arr(b)
            if P0 is None:
                e = differ(L, W, "stiffness")
                if not e:
                    Z = B.copy()
                    Z.m[0] = [0.0] * n
                    Z = Z.T
                    e = differ(L @ D, Z, "stiffness on polynomials")
                if not e and L.rank() != n - 1:
                    e = "the kernel of the stiffness is not the constants"
                if e:
                    return False, e
                P0 = arr(v.run("v_P0", d))
            f = {ex: Fr(1)}
            w = P0.T @ N([[integral(el, pdot([f], [F[i]]))] for i in range(H.shape[0])])
            e = differ(b, w, "load x^%d y^%d" % ex)
            if e:
                return False, e
        return True, "stiffness and loads"


def ints(v):
    if isinstance(v, (Seq, Mat)):
        return [ints(x) for x in v.e]
    return int(vg.num(v))


def k_map(tu, k):
    r = run(tu, "v_map", [Seq([cpt(p) for p in STAR]), k])[1]
    f, c, b = [ints(x) for x in (list(r.f.values()) if isinstance(r, Obj) else r.e)]
    seen = set(range(5))
    for (p, q), l in zip(EDGES, f):
        if len(l) != k + 1 or (l[0], l[-1]) != (p, q):
            return False, "unknowns of the face %d-%d: %s" % (p, q, l)
        for i in l[1:-1]:
            if i in seen:
                return False, "unknown %d is used twice" % i
            seen.add(i)
    if seen != set(range(5 + 8 * (k - 1))) or len(f) != 8:
        return False, "the numbers are not consecutive"
    full = {}
    for l in f:
        full[(l[0], l[-1])] = l
        full[(l[-1], l[0])] = l[::-1]
    for t, l in zip(CELLS, c):
        if len(l) != 3 * k:
            return False, "%d unknowns on the boundary of cell %s" % (len(l), t)
        vs = l[::k]
        if sorted(vs) != sorted(t):
            return False, "vertices %s on cell %s" % (vs, t)
        for i in range(3):
            if (l + l[:1])[i * k:(i + 1) * k + 1] != full[(vs[i], vs[(i + 1) % 3])]:
                return False, "cell %s does not share the unknowns of side %d-%d" % (t, vs[i], vs[(i + 1) % 3])
    for (p, q), l, x in zip(EDGES, f, b):
        if 4 in (p, q):
            if x:
                return False, "the inner face %d-%d has boundary unknowns" % (p, q)
        elif x not in (l, l[::-1]):
            return False, "boundary unknowns of the face %d-%d: %s" % (p, q, x)
    return len(c) == 4 and len(b) == 8, "%d unknowns" % len(seen)


def system(f, t):
    n = f + t
    s = lambda i, j: alg.var("a%d%d" % (min(i, j), max(i, j)) if i >= f and j >= f else "a%d%d" % (i, j))     # the cell block is symmetric
    A = [[s(i, j) for j in range(n)] for i in range(n)]
    b = [alg.var("b%d" % i) for i in range(n)]
    return A, b, Mat(n, n, [x for r in A for x in r]), Mat(n, 1, list(b))


def tot(xs):
    r = 0
    for x in xs:
        r = alg.add(r, x)
    return r


def k_schur(tu, f, t):
    """eliminating the inner unknowns of the full system gives the condensed one"""
    A, b, MA, Mb = system(f, t)
    r = run(tu, "v_schur", [MA, Mb, f])[1]
    L, R = (list(r.f.values()) if isinstance(r, Obj) else r.e)
    x = [alg.var("x%d" % i) for i in range(f)]
    y = inner(A, b, x, f, t)
    if (L.r, L.c) != (f, f) or len(vec(R)) != f:
        return False, "the condensed system is %dx%d" % (L.r, L.c)
    for i in range(f):
        full = alg.sub(tot([alg.mul(A[i][j], (x + y)[j]) for j in range(f + t)]), b[i])
        cond = alg.sub(tot([alg.mul(L.e[i * f + j], x[j]) for j in range(f)]), vec(R)[i])
        if not alg.eq(full, cond):
            return False, "row %d of the condensed system" % i
    return True, "%d rows" % f


def inner(A, b, x, f, t):
    M = Mat(t, t, [A[f + i][f + j] for i in range(t) for j in range(t)])
    r = Mat(t, 1, [alg.sub(b[f + i], tot([alg.mul(A[f + i][j], x[j]) for j in range(f)])) for i in range(t)])
    return [vg.num(z) for z in vg.gauss(M, r).e] if t else []


def k_deschur(tu, f, t):
    A, b, MA, Mb = system(f, t)
    x = [alg.var("x%d" % i) for i in range(f)]
    r = vec(run(tu, "v_deschur", [MA, Mb, Mat(f, 1, list(x)), f])[1])
    w = x + inner(A, b, x, f, t)
    return len(r) == f + t and all(alg.eq(p, q) for p, q in zip(r, w)), "recovered unknowns"


def jobs(tier):
    J = []
    deg = range(1, 4) if tier == "quick" else range(1, 5)
    for K in POINTS:
        J.append(("ccw/%s" % K, ("ccw", K)))
        for d in deg:
            J += [("%s/%s/%d" % (k, K, d), (k, K, d)) for k in ("G", "B", "D", "PN", "P0", "loc")]
    J += [("map/%d" % k, ("map", k)) for k in range(1, 6)]
    for f, t in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)):
        J += [("%s/%d+%d" % (k, f, t), (k, f, t)) for k in ("schur", "deschur")]
    return J


def main(rep):
    tu = front.export(front.PROBES + "/fem.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        fn = "v_" + j[0] + ("_" + j[1][:2] if j[0] not in ("map", "schur", "deschur") else "")
        collect(rep, oid, where_of(tu, fn), r, "virtual elements (%s)" % oid)
    return rep.finish(
        "interpretation of the virtual element operators on concrete cells with exact integrals over the cell and the tabulated Gauss-Lobatto nodes on the sides: "
        "G, B and D equal the matrices of their definitions, projectors and local stiffness the ones these define (tolerance 1e-9), polynomials are reproduced, "
        "the stiffness vanishes on constants only; the numbering of the unknowns is one-to-one and shared along sides; the condensation is the block elimination",
        ["cells: a triangle listed both ways, a rectangle, a pentagon", "degrees %s" % ("1-3" if rep.tier == "quick" else "1-4")],
        analysed={"obligations": len(J), "functions": len(tu.functions)})
