"""H04: degree bookkeeping.  The degrees a method object holds are the ones it was given (or the documented fallback), setters
change exactly the element they are given, and dof counts and offsets are the dimensions of the polynomial spaces."""
from math import comb
from .sym import *
from .hlib import SHAPES, DIM
from .g01 import where_of
import front

PROBE = "dofs"
STAR = [(0, 0), (8, 0), (8, 6), (0, 6), (4, 3)]
NFACES = {"t2": 3, "t3": 4}
CELLS = [(0, 1, 4), (0, 3, 4), (1, 2, 4), (2, 3, 4)]
EDGES = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)]


def ints(v):
    if isinstance(v, Seq):
        return [int(vg.num(x)) for x in v.e]
    return [int(vg.num(v))]


def pts(ps):
    return Seq([cpt([Fr(c) for c in p]) for p in ps])


from fractions import Fraction as Fr


def sv(xs):
    return Seq([int(x) for x in xs])


def hdi(cd, fd, gd=None):
    good = abs(cd - fd) <= 1 and (gd is None or gd >= fd)
    return [cd, fd, fd if gd is None else gd, fd + 1] if good else [fd, fd, fd, fd + 1]


def cell_dump(cd, gd, rd, faces):
    r = [cd, gd, rd, 1, cd, gd, rd]
    for d, u in faces:
        r += [d, int(u)]
    return r


def mesh_dump(cells, grads, recs, faces):
    """cells/faces: [(degree, unknowns)]"""
    r = []
    for i, c in enumerate(CELLS):
        fs = [faces[EDGES.index(e)] for e in ((c[0], c[1]), (c[1], c[2]), (c[0], c[2]))]
        d = cell_dump(cells[i][0], grads[i], recs[i], fs)
        d[3] = int(cells[i][1])
        r += d + [cells[i][0], int(cells[i][1]), cells[i][0]]
    for d, u in faces:
        r += [d, int(u), d]
    return r + [c[0] for c in cells] + [f[0] for f in faces]


def dim(k, d):
    return comb(k + d, d)


def kron(tu, j):
    q, args, n, m, d, what = j
    A = [alg.var("a%d" % i) for i in range(n * m)]
    v = run(tu, q, [sv(a) if isinstance(a, list) else pts(a) if isinstance(a, tuple) else a for a in args] + [Mat(n, m, A)])[1]
    if (v.r, v.c) != (d * n, d * m):
        return False, "%s: shape %dx%d, expected %dx%d" % (what, v.r, v.c, d * n, d * m)
    for i in range(v.r):
        for k in range(v.c):
            if not alg.eq(v.e[i * v.c + k], A[i // d * m + k // d] if i % d == k % d else 0):
                return False, "%s: entry (%d, %d) is not the scalar entry of its component" % (what, i, k)
    return True, what


def one(tu, j):
    if len(j) == 6:
        return kron(tu, j)
    q, args, want, what = j
    v = run(tu, q, [sv(a) if isinstance(a, list) else pts(a) if isinstance(a, tuple) else a for a in args])[1]
    got = ints(v)
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return False, "%s: value %d of the result is %s, expected %s" % (
            what, k, got[k] if k < len(got) else "missing", want[k] if k < len(want) else "absent")
    return True, what


def jobs(tier):
    n = 6 if tier == "thorough" else 4
    J = []

    def add(oid, q, args, *want):
        J.append((oid, (q, args) + want))
    add("info/default", "hdi0", [], [1, 1, 1, 2], "hho_degree_info()")
    for k in range(n):
        add("info/%d" % k, "hdi1", [k], [k, k, k, k + 1], "hho_degree_info(%d)" % k)
        for s, w in enumerate(("cell", "face", "reconstruction")):
            want = [5, 6, 7, 7]
            want[(0, 1, 3)[s]] = k
            add("info/set-%s/%d" % (w, k), "hdis", [s, k], want, "setting the %s degree to %d" % (w, k))
        for fd in range(n):
            add("info/%d-%d" % (k, fd), "hdi2", [k, fd], hdi(k, fd), "hho_degree_info(%d, %d)" % (k, fd))
            add("info/named/%d-%d" % (k, fd), "hdin", [k + fd + 1, k, fd], [k, fd, fd, k + fd + 1],
                "hho_degree_info(named: rd %d, cd %d, fd %d)" % (k + fd + 1, k, fd))
            for gd in range(n + 1):
                add("info/%d-%d-%d" % (k, fd, gd), "hdi3", [k, fd, gd], hdi(k, fd, gd), "hho_degree_info(%d, %d, %d)" % (k, fd, gd))
    for K in ("t2", "t3"):
        P, nf, d = tuple(SHAPES[K]), NFACES[K], DIM[K]
        for cd, fd, gd in ((0, 1, 2), (2, 1, 3), (3, 0, 0)):
            add("cell/%s/%d" % (K, cd), "cdi1_" + K, [P, cd], cell_dump(cd, cd, cd + 1, [(cd, 1)] * nf), "CellDegreeInfo(%d)" % cd)
            add("cell/%s/%d-%d" % (K, cd, fd), "cdi2_" + K, [P, cd, fd], cell_dump(cd, fd, fd + 1, [(fd, 1)] * nf), "CellDegreeInfo(%d, %d)" % (cd, fd))
            add("cell/%s/%d-%d-%d" % (K, cd, fd, gd), "cdi3_" + K, [P, cd, fd, gd], cell_dump(cd, gd, fd + 1, [(fd, 1)] * nf), "CellDegreeInfo(%d, %d, %d)" % (cd, fd, gd))
        mixes = [([i + 1 for i in range(nf)], [1] * nf), ([2, 0, 3, 1][:nf], [1, 1, 0, 1][:nf]), ([1] * nf, [0] * nf), ([3, 1, 0, 2][:nf], [0, 1, 1, 0][:nf])]
        for i, (df, un) in enumerate(mixes):
            fs = list(zip(df, un))
            s = [dim(a, d - 1) if u else 0 for a, u in fs]
            t = [d * x for x in s]
            tag = "".join("%d%s" % (a, "" if u else "x") for a, u in fs)
            for q in ("cdi4", "cdi5"):
                add("cell/%s/%s/%s" % (K, q, tag), q + "_" + K, [P, 2, 4, 1, list(df), list(un)], cell_dump(2, 1, 4, fs), "CellDegreeInfo with faces " + tag)
            off = [sum(s[:k]) for k in range(nf)]
            add("dofs/scalar/%s/%s" % (K, tag), "sdofs_" + K, [P, list(df), list(un)], off + [sum(s)] * 2 + s, "scalar face dofs and offsets for " + tag)
            add("dofs/vector/%s/%s" % (K, tag), "vdofs_" + K, [P, list(df), list(un)], [d * x for x in off] + [sum(t)] * 2 + t, "vector face dofs and offsets for " + tag)
            for cd in (0, 1, 2):
                add("dofs/diff/%s/%d/%s" % (K, cd, tag), "sdiff_" + K, [P, cd, list(df), list(un)], [sum(max(dim(cd, d - 1), x) for x in s)],
                    "scalar_diff_dofs, cell degree %d, faces %s" % (cd, tag))
            n = 3 if d == 2 else 4
            n += sum(s)
            add("kron/lhs/%s/%s" % (K, tag), "clv_" + K, [P, 1, list(df), list(un)], n, n, d, "vector operator from a scalar one, faces " + tag)
        for cd, fd in ((0, 0), (1, 0), (1, 1), (0, 1)):
            n = dim(cd, d) + nf * dim(fd, d - 1)
            add("kron/lhs/%s/%d-%d" % (K, cd, fd), "clvh_" + K, [P, cd, fd], n, n, d, "vector operator from a scalar one, degrees %d, %d" % (cd, fd))
            add("kron/grad/%s/%d-%d" % (K, cd, fd), "cgv_" + K, [P, cd, fd], dim(fd + 1, d) - 1, n, d, "vector reconstruction from a scalar one, degrees %d, %d" % (cd, fd))
            add("kron/mat/%s/%d-%d" % (K, cd, fd), "cgm_" + K, [P, cd, fd], d * dim(fd, d), n, d, "matrix gradient from a vector one, degrees %d, %d" % (cd, fd))
    S = tuple(STAR)
    for a, b_, c in ((2, 1, 3), (0, 1, 1)):
        add("mesh/%d" % a, "mdi", [S, 1, a, b_, c], mesh_dump([(a, 1)] * 4, [a] * 4, [a + 1] * 4, [(a, 1)] * 8), "MeshDegreeInfo(%d)" % a)
        add("mesh/%d-%d" % (a, b_), "mdi", [S, 2, a, b_, c], mesh_dump([(a, 1)] * 4, [b_] * 4, [b_ + 1] * 4, [(b_, 1)] * 8), "MeshDegreeInfo(%d, %d)" % (a, b_))
        add("mesh/%d-%d-%d" % (a, b_, c), "mdi", [S, 3, a, b_, c], mesh_dump([(a, 1)] * 4, [c] * 4, [b_ + 1] * 4, [(b_, 1)] * 8), "MeshDegreeInfo(%d, %d, %d)" % (a, b_, c))
    for op, w in enumerate(("degree", "hasUnknowns", "degreeInfo")):
        for which in range(4):
            for val in (0, 7):
                cells = [(3, 1)] * 4
                cells[which] = ((val, 1), (3, val != 0), (val, 0))[op]
                add("set/cell/%s/%d/%d" % (w, which, val), "touch2", [S, op, which, val], mesh_dump(cells, [5] * 4, [5] * 4, [(4, 1)] * 8), "%s of cell %d set" % (w, which))
        for which in range(8):
            for val in (0, 7):
                fs = [(4, 1)] * 8
                fs[which] = ((val, 1), (4, val != 0), (val, 0))[op]
                add("set/face/%s/%d/%d" % (w, which, val), "touch2", [S, op + 3, which, val], mesh_dump([(3, 1)] * 4, [5] * 4, [5] * 4, fs), "%s of face %d set" % (w, which))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/dofs.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, j[0]), r, "degree bookkeeping")
    return rep.finish(
        "constant propagation through constructors, setters, getters, element look-up and dof counting; the degrees read back must be "
        "those given (or the equal-order fallback for combinations the constructor documents as invalid), a setter must change its element "
        "only, and counts and offsets must be the dimensions of P^k on the faces that carry unknowns",
        ["degrees below %d" % (7 if rep.tier == "thorough" else 5)],
        analysed={"probes": sorted({j[0] for _, j in J}), "functions": len(tu.functions)})
