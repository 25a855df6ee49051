"""A01: the operators of the discrete geometric approach are the geometric ones and exact on uniform fields"""
import front
from .sym import *
from . import geo
from .g01 import where_of

PROBE = "fem"
EDGES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
FACES = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]
UNIT = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
REF = {"right": UNIT, "left": [UNIT[0], UNIT[2], UNIT[1], UNIT[3]]}     # vertex numberings of both orientations
Fr = geo.Fr


def add(a, b, s=1): return [alg.add(x, alg.mul(s, y)) for x, y in zip(a, b)]
def scal(s, a): return [alg.mul(s, x) for x in a]
def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = alg.add(r, alg.mul(x, y))
    return r
def cross(a, b):
    m = alg.mul
    return [alg.sub(m(a[1], b[2]), m(a[2], b[1])), alg.sub(m(a[2], b[0]), m(a[0], b[2])), alg.sub(m(a[0], b[1]), m(a[1], b[0]))]


class Tet:
    """a tetrahedron under every affine map of positive determinant"""

    def __init__(self, side):
        self.s = 1 if side == "right" else -1       # orientation of the vertices
        self.sh = geo.Shape("tet", None, REF[side], FACES)
        self.p = [vec(q) for q in self.sh.pts().e]
        self.vol = alg.mul(Fr(1, 6), self.sh.det)

    def args(self): return [self.sh.pts()]
    def mean(self, ids): return scal(Fr(1, len(ids)), [sum_([self.p[i][k] for i in ids]) for k in range(3)])
    def edge(self, a, b): return add(self.p[b], self.p[a], -1)
    def area(self, f): return scal(Fr(1, 2), cross(self.edge(f[0], f[1]), self.edge(f[0], f[2])))

    def out(self, i):
        """+1 when the area vector of face i points outward"""
        return self.s * (1 if i % 2 == 0 else -1)

    def devs(self):
        """from the barycentre of the tetrahedron to that of the face, along the area vector"""
        return [scal(self.out(i), add(self.mean(f), self.mean(range(4)), -1)) for i, f in enumerate(FACES)]

    def davs(self):
        """the dual face of edge ab: the quadrilateral edge - face - volume - face barycentres, along ab"""
        r = []
        for a, b in EDGES:
            c, d = [i for i in range(4) if i not in (a, b)]
            perm = [a, b, c, d]
            par = self.s * (1 if sum(1 for x in range(4) for y in range(x) if perm[y] > perm[x]) % 2 == 0 else -1)
            if par < 0:
                c, d = d, c                          # a b c d right handed
            e = self.mean((a, b))
            v = cross(add(self.mean((a, b, c)), self.mean((a, b, d)), -1), add(self.mean(range(4)), e, -1))
            r.append(scal(Fr(1, 2), v))
        return r


def sum_(xs):
    r = 0
    for x in xs:
        r = alg.add(r, x)
    return r


def call(tu, T, fn, *args):
    I, v = geo.run_pos(tu, fn, T.args() + list(args), T.sh.pos)
    return v if isinstance(v, (Obj, Seq, Mat)) else geo.posit(v, T.sh.pos)


def rows(v):
    """a list of vectors or a matrix by rows"""
    if isinstance(v, Mat):
        return [[vg.num(v.at(i, j)) for j in range(v.c)] for i in range(v.r)]
    if isinstance(v, Obj):
        for x in v.f.values():
            return rows(x)
    return [vec(x) for x in v.e]


def same(got, want, what):
    if len(got) != len(want):
        return False, "%d %s instead of %d" % (len(got), what, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = (g, w) if isinstance(g, list) else ([g], [w])
        if len(g) != len(w):
            return False, "%s %d has %d entries instead of %d" % (what, i, len(g), len(w))
        for k, (x, y) in enumerate(zip(g, w)):
            if not alg.eq(x, y):
                return False, "entry %d of %s %d is %s, expected %s" % (k, what, i, str(x)[:60], str(y)[:60])
    return True, "%d %s" % (len(want), what)


def ints(v):
    if isinstance(v, Obj):
        return ints(next(iter(v.f.values())))
    if isinstance(v, (Seq, Mat)):
        return [ints(x) for x in v.e]
    return int(vg.num(v))


def one(tu, job):
    kind, side = job[:2]
    if kind == "ids":
        return ids(tu, job[2])
    T = Tet(side)
    u = [alg.var("u" + c) for c in "xyz"]
    U = Mat(3, 1, list(u))
    if kind == "edges":
        if len(job) == 2:
            return same(ints(call(tu, T, "dga_edges")), [list(e) for e in EDGES], "edges")
        f = FACES[job[2]]
        w = [[f[0], f[1]], [f[0], f[2]], [f[1], f[2]]]
        return same(ints(call(tu, T, "dga_fedges", job[2])), w, "edges of the face")
    if kind == "pev":
        return same(rows(call(tu, T, "dga_pev")), [T.edge(*e) for e in EDGES], "edge vectors")
    if kind == "pevf":
        f = FACES[job[2]]
        return same(rows(call(tu, T, "dga_pevf", job[2])), [T.edge(f[0], f[1]), T.edge(f[0], f[2]), T.edge(f[1], f[2])], "edge vectors of the face")
    if kind == "pav":
        return same(rows(call(tu, T, "dga_pav")), [T.area(f) for f in FACES], "area vectors")
    if kind == "dev":
        return same(rows(call(tu, T, "dga_dev")), T.devs(), "dual edge vectors")
    if kind == "dav":
        return same(rows(call(tu, T, "dga_dav")), T.davs(), "dual area vectors")
    if kind == "devf":
        # pev x dev points out of the tetrahedron
        i = job[2]
        f = FACES[i]
        w = []
        for (a, b), s in (((f[0], f[1]), 1), ((f[0], f[2]), -1), ((f[1], f[2]), 1)):
            w.append(scal(s * T.out(i), add(T.mean(f), T.mean((a, b)), -1)))
        return same(rows(call(tu, T, "dga_devf", i)), w, "dual edge vectors on the face")
    if kind == "int":
        fn, vs = {"ipe": ("dga_ipe", [T.edge(*e) for e in EDGES]), "ipf": ("dga_ipf", [T.area(f) for f in FACES]),
                  "ide": ("dga_ide", T.devs()), "idf": ("dga_idf", T.davs())}[job[2]]
        return same(vec(call(tu, T, fn, U)), [dot(u, v) for v in vs], "integrals of a uniform field")
    if kind == "ipef":
        f = FACES[job[2]]
        vs = [T.edge(f[0], f[1]), T.edge(f[0], f[2]), T.edge(f[1], f[2])]
        return same(vec(call(tu, T, "dga_ipef", job[2], U)), [dot(u, v) for v in vs], "integrals over the edges of the face")
    if kind == "nrm":
        N = rows(call(tu, T, "dga_nrm"))
        for i, f in enumerate(FACES):
            a = T.area(f)
            if any(not alg.eq(x, 0) for x in cross(N[i], a)):
                return False, "normal %d is not orthogonal to its face" % i
            # |a| n = +- a, squared and signed through the product with the area vector
            if not alg.eq(dot(N[i], N[i]), 1):
                return False, "normal %d is not a unit vector" % i
            d = dot(N[i], a)
            if not alg.eq(alg.mul(d, d), dot(a, a)):
                return False, "normal %d is not along its area vector" % i
            if not alg.eq(d, alg.mul(T.out(i), alg.sqrt_(dot(a, a)))):
                return False, "normal %d points inward" % i
        return True, "4 normals"
    if kind == "nrmf":
        f = FACES[job[2]]
        a = T.area(f)
        N = rows(call(tu, T, "dga_nrmf", job[2]))
        for n, (x, y, z) in zip(N, ((0, 1, 2), (0, 2, 1), (1, 2, 0))):
            e, out = T.edge(f[x], f[y]), T.edge(f[z], f[x])
            if not (alg.eq(dot(n, e), 0) and alg.eq(dot(n, a), 0) and alg.eq(dot(n, n), 1)):
                return False, "normal of edge %d%d is not a unit vector of the face orthogonal to the edge" % (f[x], f[y])
            # the component of the edge vector from the third vertex orthogonal to the edge
            w = [alg.sub(alg.mul(o, dot(e, e)), alg.mul(v, dot(out, e))) for o, v in zip(out, e)]
            d = dot(n, w)
            if not alg.eq(alg.mul(d, d), dot(w, w)):
                return False, "normal of edge %d%d is not along the height of the face" % (f[x], f[y])
            if not alg.eq(d, alg.sqrt_(dot(w, w))):
                return False, "normal of edge %d%d does not point out of the face" % (f[x], f[y])
        return len(N) == 3, "3 normals"
    if kind == "grad":
        w = [[-1 if j == a else 1 if j == b else 0 for j in range(4)] for a, b in EDGES]
        return same(rows(call(tu, T, "dga_grad")), w, "rows of the gradient")
    if kind == "curl":
        w = []
        for a, b, c in FACES:
            w.append([1 if e in ((a, b), (b, c)) else -1 if e == (a, c) else 0 for e in EDGES])
        return same(rows(call(tu, T, "dga_curl")), w, "rows of the curl")
    if kind == "vol":
        s, un = vg.num(call(tu, T, "dga_vs")), vg.num(call(tu, T, "dga_vu"))
        if not alg.eq(s, alg.mul(T.s, T.vol)):
            return False, "signed volume %s" % str(s)[:80]
        return alg.eq(un, T.vol), "unsigned volume %s" % str(un)[:80]
    if kind == "mat":
        fn, tensor = job[2], job[3]
        if tensor:
            k = [[alg.var("k%d%d" % (min(i, j), max(i, j))) for j in range(3)] for i in range(3)]
            arg = Mat(3, 3, [x for r in k for x in r])
        else:
            c = alg.var("k")
            k = [[c if i == j else 0 for j in range(3)] for i in range(3)]
            arg = c
        M = [[geo.posit(x, T.sh.pos) for x in r] for r in rows(call(tu, T, fn + ("t" if tensor else ""), arg))]
        prim, dual = ([T.edge(*e) for e in EDGES], T.davs()) if fn == "dga_em" else ([T.area(f) for f in FACES], T.devs())
        n = len(prim)
        if len(M) != n or any(len(r) != n for r in M):
            return False, "the matrix is %dx%d" % (len(M), len(M[0]))
        for i in range(n):
            for j in range(i):
                if not alg.eq(M[i][j], M[j][i]):
                    return False, "the matrix is not symmetric at (%d, %d)" % (i, j)
        for i in range(n):
            for q in range(3):
                got = sum_([alg.mul(M[i][j], prim[j][q]) for j in range(n)])
                want = sum_([alg.mul(dual[i][r], k[r][q]) for r in range(3)])
                if not alg.eq(got, want):
                    return False, "row %d applied to the uniform field e%d gives %s, expected %s" % (i, q, str(got)[:60], str(want)[:60])
        return True, "symmetric, exact on uniform fields (%d rows)" % n
    raise KeyError(kind)


def ids(tu, which):
    """numbers of edges in the global list of two tetrahedra"""
    all_ = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4)]
    faces = [(0, 1, 2), (0, 1, 3), (0, 1, 4), (0, 2, 3), (0, 2, 4), (1, 2, 3), (1, 2, 4)]
    pts = Seq([cpt([Fr(c) for c in q]) for q in [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1)]])
    if which == "cell":
        got = ints(run(tu, "dga_eids", [pts])[1])
        w = [[all_.index((a[x], a[y])) for x, y in EDGES] for a in ((0, 1, 2, 3), (0, 1, 2, 4))]
        return got == w, "edge numbers of the cells %s" % (got,)
    for i, (a, b, c) in enumerate(faces):
        got = ints(run(tu, "dga_feids", [pts, i])[1])
        w = [all_.index(e) for e in ((a, b), (a, c), (b, c))]
        if got != w:
            return False, "edge numbers of face %d are %s, expected %s" % (i, got, w)
    return True, "7 faces"


def jobs(tier):
    J = []
    for s in REF:
        for k in ("edges", "pev", "pav", "dev", "dav", "nrm", "vol", "grad", "curl"):
            J.append(("%s/%s" % (k, s), (k, s)))
        for i in range(4):
            for k in ("edges", "pevf", "devf", "ipef", "nrmf"):
                J.append(("%s/%s/face%d" % (k, s, i), (k, s, i)))
        for k in ("ipe", "ipf", "ide", "idf"):
            J.append(("int/%s/%s" % (k, s), ("int", s, k)))
        for f in ("dga_em", "dga_fm"):
            for t in (False, True):
                J.append(("mat/%s/%s/%s" % (f[4:], "tensor" if t else "scalar", s), ("mat", s, f, t)))
    J += [("ids/cell", ("ids", None, "cell")), ("ids/face", ("ids", None, "face"))]
    return J


FN = {"edges": "dga_edges", "pev": "dga_pev", "pevf": "dga_pevf", "pav": "dga_pav", "dev": "dga_dev", "devf": "dga_devf", "dav": "dga_dav", "ipef": "dga_ipef",
      "nrm": "dga_nrm", "nrmf": "dga_nrmf", "vol": "dga_vs", "grad": "dga_grad", "curl": "dga_curl", "ids": "dga_eids"}


def main(rep):
    tu = front.export(front.PROBES + "/fem.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        fn = "dga_" + j[2] if j[0] == "int" else j[2] + ("t" if j[3] else "") if j[0] == "mat" else FN[j[0]]
        collect(rep, oid, where_of(tu, fn), r, "discrete geometric approach (%s)" % oid)
    return rep.finish(
        "value numbering over symbolic tetrahedra (every affine image of the unit one, both vertex orientations): primal and dual edge and area vectors, "
        "normals, incidence matrices and edge numbers equal their definitions; edge and face matrices are symmetric and exact on uniform fields for a symbolic "
        "scalar or symmetric tensor parameter",
        ["tensor parameters are symmetric", "the tetrahedron is not flat"], analysed={"obligations": len(J), "functions": len(tu.functions)})
