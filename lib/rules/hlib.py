"""Local operators of the HHO method, interpreted on a catalogue of concrete cells in the domain of integrals (meas.py)"""
from fractions import Fraction
import itertools, re
import alg, vg, meas
from .sym import *
from . import blib as b
from .quadlib import *

Fr = Fraction
ROT3 = [[Fr(1, 3), Fr(2, 3), Fr(-2, 3)], [Fr(2, 3), Fr(1, 3), Fr(2, 3)], [Fr(2, 3), Fr(-2, 3), Fr(-1, 3)]]
ROT2 = [[Fr(3, 5), Fr(-4, 5)], [Fr(4, 5), Fr(3, 5)]]


def rot(R, p, t):
    return tuple(sum(r[j] * p[j] for j in range(len(p))) + s for r, s in zip(R, t))


# cells with rational edge lengths / face areas, so that every normal is rational
SHAPES = {
    "t2": [rot(ROT2, q, (Fr(1, 2), Fr(-1, 3))) for q in [(0, 0), (Fr(7, 2), 0), (Fr(5, 4), 3)]],   # edges 7/2, 13/4, 15/4
    "p2": [rot(ROT2, q, (Fr(1, 2), Fr(-1, 3))) for q in [(0, 0), (3, -4), (15, 1), (11, 4), (0, 4)]],
    "t3": [rot(ROT3, q, (Fr(1, 2), Fr(-1, 3), Fr(2))) for q in [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1)]],
}
DIM = {"t2": 2, "p2": 2, "t3": 3}
NAME = {"t2": "a triangle", "p2": "a pentagon", "t3": "a tetrahedron"}


DBLMAX = Fr(2) ** 1024 - Fr(2) ** 971


def ptids(I, el):
    """point ids of an element value, through the element's own point_ids()"""
    el = I.deloc(el)

    def ints(v):
        if isinstance(v, (int, Fraction)):
            return [int(v)]
        if isinstance(v, Obj):
            return [x for k in v.f for x in ints(v.f[k])]
        if isinstance(v, Seq):
            return [x for y in v.e for x in ints(y)]
        return []
    todo = [el]
    fns = {f.get("cls"): f for f in I.tu.functions if f["q"].endswith("::point_ids") and "body" in f}
    while todo:
        o = todo.pop()
        if o.cls in fns:
            return ints(I.deloc(I.call_fn(fns[o.cls], [], I.new(o))))
        for c, f in fns.items():
            if c.endswith("<" + o.cls + ">") or (c.endswith(o.cls + ">")):
                return ints(I.deloc(I.call_fn(f, [], I.new(o))))
        todo += [v for v in o.f.values() if isinstance(v, Obj)]
    raise Und("point ids of " + el.cls)


def coplanar(P):
    """four or more points of space in one plane"""
    v = [[a - c for a, c in zip(p, P[0])] for p in P[1:]]
    def det(a, b_, c):
        return a[0] * (b_[1] * c[2] - b_[2] * c[1]) - a[1] * (b_[0] * c[2] - b_[2] * c[0]) + a[2] * (b_[0] * c[1] - b_[1] * c[0])
    return all(det(*t) == 0 for t in itertools.combinations(v, 3))


class Ctx:
    def __init__(self, tu, K, h=None, ov=None, P=None):
        self.tu, self.K = tu, K
        self.dim = DIM[K]
        self.P = SHAPES[K] if P is None else P
        self.elems = {}
        self.M = meas.Measure(self.dim, self.elem_of)
        self.M.where_of = self.where_of
        self.M.mkqp = self.mkqp
        self.h = h
        self.ov = dict(ov or {})
        self.ov["std::numeric_limits<double>::max"] = lambda I, e: DBLMAX
        self.ov["disk::integrate"] = lambda I, e: self.M.integrate(I, e)
        self.ov["disk::inertia_axes"] = self.axes
        self.ov["disk::scaled_inertia_axes"] = self.axes
        self.ov["std:sqrt"] = self.root      # sqrt(2), the normalisation of off-diagonal components, is represented by a rational
        if h is not None:
            self.ov["disk::diameter"] = self.diam

    def axes(self, I, e):
        """some orthonormal frame; on a face of a 3D cell one containing the normal (what the eigenvectors of the inertia are)"""
        ids = ptids(I, I.ev(e["a"][1]))
        d = self.dim
        if d < 3 or not coplanar([self.P[i] for i in ids]):
            R = ROT3 if d == 3 else ROT2
            return vg.Mat(d, d, [x for r in R for x in r])
        p = [self.P[i] for i in ids[:3]]
        u, w = [[x - y for x, y in zip(q, p[0])] for q in p[1:]]
        n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        l = alg.c_sqrt(sum(x * x for x in n))
        if l is None:
            raise Und("irrational normal")
        n = [Fr(x) / l for x in n]
        v = [n[0] - 1, n[1], n[2]] if n[0] != 1 else [Fr(0), Fr(0), Fr(0)]
        vv = sum(x * x for x in v)
        H = [[(1 if i == j else 0) - (2 * v[i] * v[j] / vv if vv else 0) for j in range(3)] for i in range(3)]
        H = [[r[1], r[2], r[0]] for r in H]
        return vg.Mat(3, 3, [Fr(x) for r in H for x in r])

    def root(self, I, e, want=None):
        v = I.deloc(I.ev(e["a"][0]))
        return Fr(7, 5) if is_const(v) and v == 2 else NotImplemented

    def diam(self, I, e):
        ids = ptids(I, I.ev(e["a"][1]))
        return self.h(sorted(ids))

    def where_of(self, I, e):
        for fr in reversed(I.frames):
            w = I.tu.where(fr.fn, e) if fr is I.frames[-1] else I.tu.where(fr.fn)
            if re.search(r"(libdiskpp|apps)/", w):
                return w
        return ""

    def mkqp(self, I, x, w):
        f = self.tu.fns("mkqp%d" % self.dim)[0]
        return I.call_fn(f, [I.new(cpt(x)), I.new(w)])

    def elem(self, ids):
        ids = list(ids)
        key = tuple(ids)
        if key not in self.elems:
            pts = [self.P[i] for i in ids]
            if len(pts) <= self.dim + 1 and not (self.dim == 2 and len(pts) > 3):
                S = [pts]
            elif self.dim == 2:
                S = [[pts[0], pts[i], pts[i + 1]] for i in range(1, len(pts) - 1)]
            else:
                raise Und("element with %d points" % len(pts))
            self.elems[key] = meas.Elem(S, ids)
        return self.elems[key]

    def elem_of(self, I, e, el):
        return self.elem(ptids(I, el))

    def pts(self):
        return vg.Seq([cpt(list(p)) for p in self.P])

    def call(self, q, args):
        fs = self.tu.fns(q)
        if not fs or "body" not in fs[0]:
            raise Und("probe %s does not compile against this tree" % q)
        I = vg.Interp(self.tu, self.ov)
        vg.MEASURE = self.M
        try:
            a = [I.new(x) if isinstance(x, (Obj, Seq, Mat)) else x for x in args]
            r = I.call_fn(fs[0], a)
            return self.red(I.deloc(r))
        finally:
            vg.MEASURE = None

    def red(self, v):
        if isinstance(v, Mat):
            return self.M.reduce_mat(v)
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.red(x) for k, x in v.f.items()})
        if isinstance(v, Seq):
            return Seq([self.red(x) for x in v.e])
        if isinstance(v, (E, int, Fraction)):
            return self.M.reduce(v)
        return v

    # ------------------------------------------------- bases as polynomials of the point
    def xs(self):
        return [alg.var("x" + "xyz"[i]) for i in range(self.dim)]

    def basis(self, q, args):
        x = self.xs()
        I = vg.Interp(self.tu, self.ov)
        fs = self.tu.fns(q)
        n = len(self.M.calls)
        vg.MEASURE = self.M
        try:
            v = self.red(I.deloc(I.call_fn(fs[0], [I.new(a) if isinstance(a, (Seq, Obj, Mat)) else a for a in [self.pts()] + list(args) + [cpt(x)]])))
        finally:
            vg.MEASURE = None
            del self.M.calls[n:]
        return [[b.poly_in(c, x) for c in f] for f in b.tens(I.deloc(v))]


# ------------------------------------------------------------------ exact polynomial algebra on dicts
def pmulp(p, q):
    return meas._mulp(p, q)


def integral(el, p):
    s = 0
    for ex, c in p.items():
        s = alg.add(s, alg.mul(c, el.moment(ex)))
    return s


def dot(f, g):
    """pointwise inner product of two tensors of polynomials"""
    out = {}
    for a, c in zip(f, g):
        for k, v in meas._mulp(a, c).items():
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def l2(el, fam, g):
    """coefficients of the L2 projection of g (tensor of polynomials) on the family"""
    n = len(fam)
    G = vg.Mat(n, n, [integral(el, dot(fam[i], fam[j])) for i in range(n) for j in range(n)])
    r = vg.Mat(n, 1, [integral(el, dot(fam[i], g)) for i in range(n)])
    return [vg.num(x) for x in vg.gauss(G, r).e]


def coeffs(fam, g):
    """coefficients of g in the family (g must belong to its span)"""
    keys = sorted({(c, m) for f in fam for c, p in enumerate(f) for m in p} | {(c, m) for c, p in enumerate(g) for m in p})
    n = len(fam)
    A = [[Fr(fam[j][c].get(m, 0)) for j in range(n)] + [Fr(g[c].get(m, 0))] for c, m in keys]
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None:
            raise Und("dependent basis")
        A[r], A[p] = A[p], A[r]
        A[r] = [x / A[r][c] for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        r += 1
    if any(A[i][n] for i in range(n, len(A))):
        raise Und("not in the span")
    return [A[i][n] for i in range(n)]


def mono(d, k):
    return [m for m in itertools.product(range(k + 1), repeat=d) if sum(m) <= k]


def deriv(p, i):
    return {tuple(e - (j == i) for j, e in enumerate(m)): c * m[i] for m, c in p.items() if m[i]}


def mvec(M, v):
    out = []
    for i in range(M.r):
        s = 0
        for j in range(M.c):
            if not (is_const(v[j]) and v[j] == 0):
                s = alg.add(s, alg.mul(vg.num(M.e[i * M.c + j]), v[j]))
        out.append(s)
    return out


def vdot(a, c):
    s = 0
    for x, y in zip(a, c):
        s = alg.add(s, alg.mul(x, y))
    return s


def symmetric(M):
    return M.r == M.c and all(alg.eq(vg.num(M.e[i * M.c + j]), vg.num(M.e[j * M.c + i])) for i in range(M.r) for j in range(i))


def inertia(M):
    """(positive, zero, negative) pivots of a symmetric rational matrix by exact LDL^T with symmetric pivoting; None on 2x2 pivots"""
    n = M.r
    A = [[Fr(vg.num(M.e[i * n + j])) for j in range(n)] for i in range(n)]
    left = list(range(n))
    pos = neg = 0
    while left:
        p = next((i for i in left if A[i][i] != 0), None)
        if p is None:
            if any(A[i][j] for i in left for j in left):
                return (pos + 1, 0, neg + 1)      # a 2x2 block with zero diagonal is indefinite
            return (pos, len(left), neg)
        if A[p][p] > 0:
            pos += 1
        else:
            neg += 1
        left.remove(p)
        for i in left:
            f = A[i][p] / A[p][p]
            if f:
                for j in left:
                    A[i][j] -= f * A[p][j]
    return (pos, 0, neg)


class Space:
    """cell and face bases of a hybrid space and the interpolation of polynomials"""

    def __init__(self, C, cd, fd, vec=False):
        self.C, self.cd, self.fd, self.vec = C, cd, fd, vec
        pre = "v" if vec else ""
        K = C.K
        self.cb = C.basis(pre + "cb_" + K, [cd])
        nf = int(vec_int(C.call("nf_" + K, [C.pts()])))
        self.faces = []
        for i in range(nf):
            pts = C.call("fpts_" + K, [C.pts(), i])
            P = [tuple(vg.num(c) for c in vec_(p)) for p in pts.e]
            self.faces.append(meas.Elem([P], "face %d" % i))
        self.fb = [C.basis(pre + "fb_" + K, [i, fd]) for i in range(nf)]
        self.cell = C.elem(range(len(C.P)))
        self.n = len(self.cb) + sum(len(f) for f in self.fb)
        self.memo = {}

    def interp(self, g):
        key = repr(g)
        if key not in self.memo:
            out = l2(self.cell, self.cb, g)
            for el, fb in zip(self.faces, self.fb):
                out += l2(el, fb, g)
            self.memo[key] = out
        return self.memo[key]


def vec_(p):
    return vec(p)


def vec_int(v):
    return v


# ------------------------------------------------------------------ exact reference of the hybrid operators
def padd(p, q, s=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) + s * v
    return {k: v for k, v in out.items() if v}


def pscale(p, s):
    return {k: v * s for k, v in p.items() if v * s}


def grad(p, d):
    return [deriv(p, i) for i in range(d)]


def gradv(f, d):
    """gradient of a vector field, row i = gradient of component i (row-major list)"""
    return [deriv(f[i], j) for i in range(len(f)) for j in range(d)]


def sym(m, d):
    return [pscale(padd(m[i * d + j], m[j * d + i]), Fr(1, 2)) for i in range(d) for j in range(d)]


def divm(m, d):
    """row-wise divergence of a matrix field"""
    out = []
    for i in range(d):
        s = {}
        for j in range(d):
            s = padd(s, deriv(m[i * d + j], j))
        out.append(s)
    return out


def div(v):
    s = {}
    for i, p in enumerate(v):
        s = padd(s, deriv(p, i))
    return s


def matvec(K, v):
    """constant matrix times a vector of polynomials"""
    out = []
    for r in K:
        s = {}
        for a, p in zip(r, v):
            if a:
                s = padd(s, p, a)
        out.append(s)
    return out


def mdotn(m, n):
    d = len(n)
    return matvec_rows([m[i * d:(i + 1) * d] for i in range(len(m) // d)], n)


def matvec_rows(rows, n):
    out = []
    for r in rows:
        s = {}
        for p, a in zip(r, n):
            if a:
                s = padd(s, p, a)
        out.append(s)
    return out


def outward(C, el):
    """rational unit normal of a face, pointing out of the (convex) cell"""
    P = el.s[0]
    d = C.dim
    if d == 2:
        t = [b - a for a, b in zip(P[0], P[1])]
        n = [t[1], -t[0]]
    else:
        u, w = [[x - y for x, y in zip(q, P[0])] for q in P[1:3]]
        n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    l = alg.c_sqrt(sum(Fr(x) * x for x in n))
    if l is None:
        raise Und("irrational normal")
    c = [sum(Fr(p[i]) for p in C.P) / len(C.P) for i in range(d)]
    s = sum(x * (a - b) for x, a, b in zip(n, P[0], c))
    return [Fr(x) / l * (1 if s > 0 else -1) for x in n]


class Spc(Space):
    """hybrid space with a degree per face"""

    def __init__(self, C, cd, fds, vec=False, probes=None):
        self.C, self.cd, self.vec = C, cd, vec
        pre = "v" if vec else ""
        K = C.K
        pc, pf = probes or (pre + "cb_", pre + "fb_")
        self.cb = C.basis(pc + K, [cd])
        nf = int(C.call("nf_" + K, [C.pts()]))
        if isinstance(fds, int):
            fds = [fds] * nf
        self.fds = fds
        self.faces, self.normals = [], []
        for i in range(nf):
            pts = C.call("fpts_" + K, [C.pts(), i])
            el = meas.Elem([[tuple(Fr(vg.num(c)) for c in vec_(p)) for p in pts.e][j] for j in range(len(pts.e))] and
                           [[tuple(Fr(vg.num(c)) for c in vec_(p)) for p in pts.e]], "face %d" % i)
            self.faces.append(el)
            self.normals.append(outward(C, el))
        self.fb = [C.basis(pf + K, [i, fds[i]]) for i in range(nf)]
        self.cell = C.elem(range(len(C.P)))
        self.off = []
        n = len(self.cb)
        for f in self.fb:
            self.off.append(n)
            n += len(f)
        self.n = n
        self.memo = {}


def gram(el, A, B=None):
    B_ = A if B is None else B
    if B is None:
        G = [[None] * len(A) for _ in A]
        for i in range(len(A)):
            for j in range(i + 1):
                G[i][j] = G[j][i] = integral(el, dot(A[i], A[j]))
        return G
    return [[integral(el, dot(a, c)) for c in B_] for a in A]


def by_parts(S, cellop, faceop, fam):
    """the right-hand side  (v_T, cellop(t))_T + sum_F (v_F, faceop(t, n))_F  for every t of the family, row per t"""
    rows = []
    for t in fam:
        L = cellop(t)
        r = [integral(S.cell, dot(L, c)) for c in S.cb]
        for el, n, fb in zip(S.faces, S.normals, S.fb):
            N = faceop(t, n)
            r += [integral(el, dot(N, f)) for f in fb]
        rows.append(r)
    return rows


def as_rows(M):
    return [[vg.num(M.e[i * M.c + j]) for j in range(M.c)] for i in range(M.r)]


def mm(A, B):
    m = len(B[0]) if B else 0
    out = []
    for r in A:
        nz = [(x, B[k]) for k, x in enumerate(r) if not (is_const(x) and x == 0)]
        row = []
        for j in range(m):
            s = 0
            for x, br in nz:
                y = br[j]
                if is_const(x) and is_const(y):
                    s = s + x * y if is_const(s) else alg.add(s, x * y)
                else:
                    s = alg.add(s, alg.mul(x, y))
            row.append(s)
        out.append(row)
    return out


def tr(A):
    return [list(r) for r in zip(*A)]


def diff_at(A, B):
    """first (i, j) where two matrices differ, or None"""
    if len(A) != len(B) or (A and len(A[0]) != len(B[0])):
        return (len(A), len(A[0]) if A else 0)
    for i, (r, s) in enumerate(zip(A, B)):
        for j, (x, y) in enumerate(zip(r, s)):
            if not (x == y if is_const(x) and is_const(y) else alg.eq(x, y)):
                return (i, j)
    return None


def scal(A, s):
    return [[alg.mul(s, x) for x in r] for r in A]


def madd(A, B, s=1):
    return [[alg.add(x, alg.mul(s, y)) for x, y in zip(r, t)] for r, t in zip(A, B)]


def solve(A, B):
    n, m = len(A), len(B[0])
    r = vg.gauss(vg.Mat(n, n, [x for q in A for x in q]), vg.Mat(n, m, [x for q in B for x in q]))
    return as_rows(r)


def pair(v):
    """the matrices of a returned pair/tuple"""
    e = list(v.f.values()) if isinstance(v, Obj) else v.e if isinstance(v, Seq) else [v]
    out = []
    for x in e:
        if isinstance(x, Mat):
            out.append(x)
        elif isinstance(x, (Obj, Seq)):
            out += pair(x)
    return out


def names(S, j):
    """human name of a column"""
    if j < len(S.cb):
        return "cell unknown %d" % j
    for i, o in reversed(list(enumerate(S.off))):
        if j >= o:
            return "unknown %d of face %d" % (j - o, i)


def slack(C):
    """quadrature calls whose requested degree is below the degree of what is accumulated with them"""
    out = []
    for c in C.M.calls:
        if c.unweighted:
            out.append((c, "a quadrature node is used without its weight"))
        elif c.top is not None and c.top > c.deg:
            out.append((c, "integrate(%s, degree %d) is used for an integrand of degree %d" % (
                c.elem.label if isinstance(c.elem.label, str) else "element", c.deg, c.top)))
    return out
