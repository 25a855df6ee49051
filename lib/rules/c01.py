"""C01: boundary conditions.  What is read back for every face, by index and by face, is what was declared for its boundary id, the
four kinds of conditions do not interfere, and the counters count faces."""
from fractions import Fraction as Fr
import itertools
from math import comb
from .sym import *
from .h02 import Mesh, FACES, CELLS, D, bfaces, spec_seq, col, DIRI, CLAMPED, DX, DY, DZ, DXDY, DXDZ, DYDZ, FIXED, NEU, ROB, SIG, SIGF, TNAME, same, sh
from .g01 import where_of
import front

PROBE = "assembly"
NONE = (8, 10, 12, 16)
SIGC = 15


def state(K, ids, spec):
    """per face: the last declaration of each kind (type, id, index) or None"""
    bf = bfaces(K)
    st = [[None] * 4 for _ in FACES[K]]
    for k, (kind, ty, bid) in enumerate(spec):
        for f, i in zip(bf, ids):
            if kind == 4:
                st[f][0] = (DIRI, 0, k)
            elif i == bid:
                st[f][3 if kind == 5 else kind] = (ty, bid, None if kind == 5 else k)
    return st


def dump(tu, q, K, ids, spec):
    M = Mesh(tu, K)
    v = M.C.call(q + "_" + K, [M.C.pts(), Seq(list(ids)), spec_seq(spec)])
    got = [int(vg.num(x)) for x in v.e]
    st = state(K, ids, spec)
    want, what = [], []
    kinds = ("Dirichlet", "Neumann", "Robin", "contact")
    for f, s in enumerate(st):
        for j in range(4):
            want += [int(s[j] is not None)] * 2
            what += ["is %s" % kinds[j]] * 2
        for j in range(4):
            want += [s[j][0] if s[j] else NONE[j]] * 2
            what += ["%s type" % kinds[j]] * 2
        for j in range(4):
            want += [s[j][1] if s[j] else 0] * 2
            what += ["%s id" % kinds[j]] * 2
        what[-24:] = ["%s of face %s" % (w, FACES[K][f]) for w in what[-24:]]
    n = [sum(s[j] is not None for s in st) for j in range(4)]
    want += n + [sum(n)]
    what += ["number of %s faces" % k for k in kinds] + ["total of the conditions"]
    for c, fs in enumerate(M.cells):
        ct = [st[f][3][0] if st[f][3] else 16 for f in fs]
        for j in (0, 1, 2, 3):
            want.append(int(any(st[f][j] for f in fs)))
            what.append("cell %d has %s faces" % (c, kinds[j]))
        nc = sum(st[f][3] is not None for f in fs)
        want += [nc, len(fs) - nc, sum(t == 16 for t in ct), sum(t != SIGC for t in ct), sum(t != 16 for t in ct)]
        what += ["%s of cell %d" % (w, c) for w in ("contact faces", "faces without contact", "list of faces without contact", "list of faces with unknowns", "list of faces with contact")]
    if len(got) != len(want):
        return False, "%d values read back, expected %d" % (len(got), len(want))
    for g, w, x in zip(got, want, what):
        if g != w:
            return False, "%s: %d, expected %d" % (x, g, w)
    return True, "%d values" % len(want)


def funcs(tu, q, K, ids, spec):
    M = Mesh(tu, K)
    d = M.d
    x = [alg.var("x" + c) for c in "xyz"[:d]]
    fac = alg.var("fac")
    v = M.C.call(q + "_" + K, [M.C.pts(), Seq(list(ids)), spec_seq(spec), fac, cpt(x)])
    got = col(v)
    vec_ = q == "vfun"
    want = []

    def lin(k, c):
        s = alg.add(1 + k, alg.sub(alg.mul(2 * c + k, x[0]), alg.mul(3 + c, x[1])))
        return alg.add(s, alg.mul(1 + k, x[2])) if d == 3 else s
    for f, s in enumerate(state(K, ids, spec)):
        for j, nm in enumerate(("Dirichlet", "Neumann", "Robin", "contact")):
            if s[j]:
                for c in range(d if vec_ and j < 3 else 1):
                    w = lin(s[j][2], c)
                    want += [(alg.mul(fac, w) if j < 3 else w, "%s function of face %s" % (nm, FACES[K][f]))] * 2
    if len(got) != len(want):
        return False, "%d values read back, expected %d" % (len(got), len(want))
    for g, (w, t) in zip(got, want):
        if not same(g, w):
            return False, "%s is %s, expected %s" % (t, sh(g), sh(w))
    return True, "%d values" % len(want)


def imposed(tu, q, K, ids, spec, k):
    M = Mesh(tu, K)
    d = M.d
    v = M.C.call(q + "_" + K, [M.C.pts(), Seq(list(ids)), spec_seq(spec), k])
    n = comb(k + d - 1, d - 1)
    for f, (s, g) in enumerate(zip(state(K, ids, spec), v.e)):
        w = 0
        if s[0]:
            w = n * (1 if q == "imps" else d if s[0][0] in (DIRI, CLAMPED) else len(FIXED[s[0][0]]))
        if int(vg.num(g)) != w:
            return False, "face %s has %d imposed unknowns, expected %d" % (FACES[K][f], int(vg.num(g)), w)
    return True, ""


def query(tu, q, K, ids, spec, kind, f):
    """the function of a face without that condition is refused"""
    M = Mesh(tu, K)
    try:
        M.C.call("qf_" + K, [M.C.pts(), Seq(list(ids)), spec_seq(spec), kind, f, cpt([Fr(1)] * M.d)])
    except Thrown:
        return True, "refused"
    except (vg.OutOfBounds, vg.ShapeError) as e:
        return False, "unchecked access: %s" % str(e)[:80]
    return False, "a function is returned for a face without that condition"


def one(tu, j):
    return {"dump": dump, "funcs": funcs, "imp": imposed, "query": query}[j[0]](tu, *j[1:])


def jobs(tier):
    J = []
    for K in ("t2", "t3"):
        nb = len(bfaces(K))
        idl = [list(range(1, nb + 1)), [5, 5, 2, 2, 9, 9][:nb], [0, 7, 0, 3, 3, 4][:nb]]
        for n, ids in enumerate(idl):
            u = sorted(set(ids))
            a, b = u[0], u[-1]
            m = u[len(u) // 2]
            base = {"none": [], "dirichlet": [(0, DIRI, a)], "neumann": [(1, NEU, b)], "robin": [(2, ROB, m)], "contact": [(3, SIG, a)],
                    "each": [(0, DIRI, a), (1, NEU, b), (2, ROB, m), (3, SIG, b)],
                    "same-face": [(0, DIRI, a), (1, NEU, a), (2, ROB, a), (3, SIG, a)],
                    "twice": [(0, DIRI, a), (0, DIRI, a), (1, NEU, b), (1, NEU, b), (2, ROB, m), (2, ROB, m), (3, SIG, m), (3, SIG, m)],
                    "everywhere": [(4, 0, None)], "everywhere+": [(0, DIRI, a), (4, 0, None), (0, DIRI, b), (1, NEU, m)],
                    "absent": [(0, DIRI, 100), (1, NEU, 101), (2, ROB, 102), (3, SIG, 103)],
                    "contact-kinds": [(3, SIGC, a), (3, SIGF, b), (3, SIG, m)],
                    "all-twice": [(k, t, i) for i in u for k, t in ((0, DIRI), (1, NEU), (2, ROB), (3, SIGF))]}
            for nm, s in base.items():
                for q in ("sbc", "vbc"):
                    J.append(("state/%s/%s/%d/%s" % (q, K, n, nm), ("dump", q, K, ids, s)))
                for q in ("sfun", "vfun"):
                    J.append(("functions/%s/%s/%d/%s" % (q, K, n, nm), ("funcs", q, K, ids, s)))
                J.append(("imposed/scalar/%s/%d/%s" % (K, n, nm), ("imp", "imps", K, ids, s, 2)))
            # every pair of declarations of one kind on one boundary, the last one counts
            for x, tx in ((0, DIRI), (1, NEU), (2, ROB), (3, SIG), (3, SIGC), (5, SIGF), (5, SIG)):
                for y, ty in ((0, DIRI), (1, NEU), (2, ROB), (3, SIG), (3, SIGF), (5, SIGC), (4, 0)):
                    if (x, tx) == (y, ty):
                        continue
                    s = [(x, tx, m), (y, ty, None if y == 4 else m)]
                    nm = "%d%d-then-%d%d" % (x, tx, y, ty)
                    J.append(("state/sbc/%s/%d/%s" % (K, n, nm), ("dump", "sbc", K, ids, s)))
                    st = state(K, ids, s)
                    f = bfaces(K)[ids.index(m)]
                    if x in (3, 5) and y == 5:
                        J.append(("refused/%s/%d/%s" % (K, n, nm), ("query", "qf", K, ids, s, 3, f)))
                    elif 5 not in (x, y):
                        J.append(("functions/sfun/%s/%d/%s" % (K, n, nm), ("funcs", "sfun", K, ids, s)))
            J.append(("state/sbc/%s/%d/contact-without-function" % (K, n), ("dump", "sbc", K, ids, [(5, SIG, a), (5, SIGC, m)])))
            types = [DIRI, CLAMPED, DX, DY, DXDY] + ([DZ, DXDZ, DYDZ] if K == "t3" else [])
            for ty in types:
                J.append(("state/vbc/%s/%d/%s" % (K, n, TNAME[ty]), ("dump", "vbc", K, ids, [(0, ty, b), (1, NEU, b), (1, NEU, a)])))
                for k in (0, 1, 3):
                    J.append(("imposed/%s/%s/%d/%d" % (TNAME[ty], K, n, k), ("imp", "imp", K, ids, [(0, ty, b)], k)))
            full = [(0, DIRI, a), (1, NEU, b), (2, ROB, m), (3, SIG, b)]
            for kind in range(4):
                st = state(K, ids, full)
                for f in range(len(FACES[K])):
                    if st[f][kind] is None and f < 6:
                        J.append(("refused/%s/%d/%d/%d" % (K, n, kind, f), ("query", "qf", K, ids, full, kind, f)))
            J.append(("refused/%s/%d/contact-without-function" % (K, n), ("query", "qf", K, ids, [(5, SIG, a)], 3, bfaces(K)[ids.index(a)])))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/assembly.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, j[1] + "_" + j[2]), r, "boundary conditions")
    return rep.finish(
        "constant propagation through the declaration and the query functions of BoundaryConditions: every query by index and by face must "
        "give the last declaration of its kind for the boundary id of the face, functions are the declared ones times the factor, counters "
        "count faces, queries without a condition are refused",
        ["a mesh of four triangles and one of two tetrahedra, three numberings of the boundary"],
        analysed={"probes": sorted({j[1] for _, j in J}), "functions": len(tu.functions)})
