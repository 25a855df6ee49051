"""H02: assembly.  For symbolic local contributions and boundary data the global system has to be the one the boundary conditions
define: the entries the local-solution getters read give the numbering, and the matrix and right-hand side must be the sums of the
local contributions over that numbering, with the imposed values moved to the right-hand side and the loads added."""
from fractions import Fraction as Fr
from math import comb
from .sym import *
from .hlib import Ctx, ROT3, rot, integral, dot, l2
from .g01 import where_of
import front

PROBE = "assembly"
STAR = [(Fr(a), Fr(b_)) for a, b_ in [(0, 0), (8, 0), (8, 6), (0, 6), (4, 3)]]
TWO = [rot(ROT3, q, (Fr(1, 2), Fr(-1, 3), Fr(2))) for q in [(0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1)]]
PTS = {"t2": STAR, "t3": TWO}
D = {"t2": 2, "t3": 3}
FACES = {"t2": [(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)],
         "t3": [(0, 1, 2), (0, 1, 3), (0, 1, 4), (0, 2, 3), (0, 2, 4), (1, 2, 3), (1, 2, 4)]}
CELLS = {"t2": [(0, 1, 4), (0, 3, 4), (1, 2, 4), (2, 3, 4)], "t3": [(0, 1, 2, 3), (0, 1, 2, 4)]}
DIRI, CLAMPED, DX, DY, DZ, DXDY, DXDZ, DYDZ = range(8)
NEU, ROB, SIG, SIGF = 9, 11, 13, 14
FIXED = {DX: (0,), DY: (1,), DZ: (2,), DXDY: (0, 1), DXDZ: (0, 2), DYDZ: (1, 2)}
TNAME = {DIRI: "dirichlet", CLAMPED: "clamped", DX: "dx", DY: "dy", DZ: "dz", DXDY: "dxdy", DXDZ: "dxdz", DYDZ: "dydz",
         NEU: "neumann", ROB: "robin", SIG: "signorini", SIGF: "signorini_face"}
FAC = Fr(3, 2)


def bfaces(K):
    """boundary faces in the order of the mesh; the k-th one carries the identifier k+1"""
    return [i for i, f in enumerate(FACES[K]) if sum(set(f) <= set(c) for c in CELLS[K]) == 1]


def lin(k, c, d):
    """the data of condition k, component c, as a polynomial"""
    p = {(0, 0): 1 + k, (1, 0): 2 * c + k, (0, 1): -(3 + c)} if d == 2 else \
        {(0, 0, 0): 1 + k, (1, 0, 0): 2 * c + k, (0, 1, 0): -(3 + c), (0, 0, 1): 1 + k}
    return {m: Fr(v) for m, v in p.items() if v}


class Mesh:
    def __init__(self, tu, K):
        self.K, self.d = K, D[K]
        self.C = Ctx(tu, K, h=lambda ids: Fr(2), P=PTS[K])
        self.nb = len(bfaces(K))
        self.ids = Seq(list(range(1, self.nb + 1)))
        v = self.C.call("cells_" + K, [self.C.pts(), self.ids])
        cells, cur = [], []
        for f in v.e:
            p = tuple(int(vg.num(x)) for x in f.e)
            if p:
                cur.append(FACES[K].index(tuple(sorted(p))))
            else:
                cells.append(cur)
                cur = []
        self.cells = cells
        self.memo = {}

    def basis(self, f, deg, pre=""):
        key = (f, deg, pre)
        if key not in self.memo:
            self.memo[key] = self.C.basis(pre + "fb_" + self.K, [self.ids, f, deg])
        return self.memo[key]

    def elem(self, f):
        return self.C.elem(FACES[self.K][f])


def find(spec, kind, bid):
    for k in range(len(spec)):
        if spec[k][0] == kind and spec[k][2] == bid:
            return k
    return None


class Prob:
    """the degrees of freedom of the faces and what the conditions make of them"""

    def __init__(self, M, vec, spec, degs, u=None, contact=False, plain=None, fac=FAC):
        K, d = M.K, M.d
        n = d if vec else 1
        self.M, self.faces = M, []
        bf = bfaces(K)
        for f in range(len(FACES[K])):
            deg = degs[f]
            bid = bf.index(f) + 1 if f in bf else None
            if contact and bid and any(find(spec, q, bid) is not None and spec[find(spec, q, bid)][1] == SIGF for q in (3, 5)):
                deg += 1
            fb = M.basis(f, deg, "v" if vec else "") if deg is not None else []
            nd = len(fb)
            fixed = {}
            load = [0] * nd
            rob = None
            el = M.elem(f)
            if bid and nd:
                k = find(spec, 0, bid)
                ty = spec[k][1] if k is not None else None
                if k is None and find(spec, 4, None) is not None:
                    k, ty = find(spec, 4, None), DIRI
                if k is not None:
                    val = l2(el, fb, [{m: fac * v for m, v in lin(k, c, d).items()} for c in range(n)])
                    for i in range(nd):
                        if ty in (DIRI, CLAMPED) or i % n in FIXED[ty]:
                            fixed[i] = 0 if ty == CLAMPED else val[i]
                            if u is not None:
                                fixed[i] = alg.sub(fixed[i], u[f][i])
                for kind in (1, 2):
                    k = find(spec, kind, bid)
                    if k is not None:
                        g = [lin(k, c, d) for c in range(n)]
                        load = [x + fac * integral(el, dot(b_, g)) for x, b_ in zip(load, fb)]
                        if kind == 2:
                            rob = [[integral(el, dot(a, b_)) for b_ in fb] for a in fb]
            if plain is not None and f in plain:
                fixed = {i: 0 for i in range(nd)}
            self.faces.append((nd, fixed, load, rob))
        self.nl = [sum(self.faces[f][0] for f in c) for c in M.cells]
        self.nfree = sum(nd - len(fx) for nd, fx, _, _ in self.faces)
        self.off = [sum(x[0] for x in self.faces[:f]) for f in range(len(self.faces))]

    def local(self, c):
        """[(face, index in the face)] of the local face unknowns of a cell"""
        return [(f, i) for f in self.M.cells[c] for i in range(self.faces[f][0])]


def same(x, y):
    return x == y if is_const(x) and is_const(y) else alg.eq(x, y)


def col(v):
    return [vg.num(x) for x in v.e]


def number(P, read, X):
    """the numbering read from a solution: [(key, value)] with key = (face, i)"""
    pos = {id(x): j for j, x in enumerate(X)}
    g = {}
    for key, v in read:
        f, i = key
        fx = P.faces[f][1]
        if i in fx:
            if not same(v, fx[i]):
                return None, "component %d of face %s reads %s instead of the imposed value %s" % (i, FACES[P.M.K][f], sh(v), sh(fx[i]))
            continue
        j = next((j for j, x in enumerate(X) if v is x or (not is_const(v) and same(v, x))), None)
        if j is None:
            return None, "unknown %d of face %s reads %s, which is no unknown of the system" % (i, FACES[P.M.K][f], sh(v))
        if g.setdefault(key, j) != j:
            return None, "unknown %d of face %s is read from two places of the solution (%d and %d)" % (i, FACES[P.M.K][f], g[key], j)
    inv = {}
    for k, j in g.items():
        if inv.setdefault(j, k) != k:
            return None, "unknown %d of face %s and unknown %d of face %s are the same unknown of the system" % (k[1], FACES[P.M.K][k[0]], inv[j][1], FACES[P.M.K][inv[j][0]])
    return g, None


def sh(v):
    return str(v) if is_const(v) else str(alg.show(v))[:60]


def compare(L, R, WL, WR, n):
    if (L.r, L.c) != (n, n) or len(R.e) != n:
        return "the system has size %dx%d and right-hand side %d, expected %d" % (L.r, L.c, len(R.e), n)
    for i in range(n):
        for j in range(n):
            if not same(vg.num(L.e[i * n + j]), WL.get((i, j), 0)):
                return "matrix entry (%d, %d) is %s, expected %s" % (i, j, sh(vg.num(L.e[i * n + j])), sh(WL.get((i, j), 0)))
    for i in range(n):
        if not same(vg.num(R.e[i]), WR.get(i, 0)):
            return "right-hand side entry %d is %s, expected %s" % (i, sh(vg.num(R.e[i])), sh(WR.get(i, 0)))
    return None


def acc(Dct, k, v):
    Dct[k] = alg.add(Dct.get(k, 0), v)


def matv(nm, r, c=None):
    return Mat(r, c or 1, [alg.var("%s_%d_%d" % (nm, i, j)) for i in range(r) for j in range(c or 1)])


def spec_seq(spec):
    return Seq([int(x) for s in spec for x in (s[0], s[1], s[2] or 0)])


def condensed(tu, q, K, vec, spec, cd, fd, degs=None, un=None, nl=False, contact=False, plain=None, dirv=None, fac=FAC):
    M = Mesh(tu, K)
    nf = len(FACES[K])
    dg = [fd] * nf if degs is None else [x if o else None for x, o in zip(degs, un)]
    d = M.d
    # unknowns of the previous iterate
    u = None
    if nl:
        P0 = Prob(M, vec, spec, dg, contact=contact)
        u = [[alg.var("u%d_%d" % (f, i)) for i in range(P0.faces[f][0])] for f in range(nf)]
    P = Prob(M, vec, spec, dg, u, contact, plain, fac)
    A = [matv("a%d" % c, n, n) for c, n in enumerate(P.nl)]
    b = [matv("r%d" % c, n) for c, n in enumerate(P.nl)]
    X = [alg.var("s%d" % i) for i in range(P.nfree)]
    args = [M.C.pts(), M.ids, spec_seq(spec), fac, cd, fd, Seq(A), Seq(b), Mat(len(X), 1, X)]
    if nl:
        args.append(Seq([Mat(len(x), 1, x) for x in u]))
    if degs is not None:
        args += [Seq(list(degs)), Seq(list(un))]
    if dirv is not None:
        args.append(Seq(dirv))
    o = M.C.call(q + "_" + K, args)
    L, R, loc, full = (o.f[x] for x in ("L", "R", "loc", "full"))
    read = []
    if loc.e:
        for c, v in enumerate(loc.e):
            keys = P.local(c)
            v = col(v)
            if len(v) != len(keys):
                return False, "the local solution of cell %d has %d entries, expected %d" % (c, len(v), len(keys))
            read += list(zip(keys, v))
    if full.e:
        v = col(full)
        keys = [(f, i) for f in range(nf) for i in range(P.faces[f][0])]
        if len(v) != len(keys):
            return False, "the expanded solution has %d entries, expected %d" % (len(v), len(keys))
        read += list(zip(keys, v))
    g, err = number(P, read, X)
    if err:
        return False, err
    if len(set(g.values())) != P.nfree:
        return False, "%d of the %d free unknowns are never read back" % (P.nfree - len(set(g.values())), P.nfree)
    WL, WR = {}, {}
    for c in range(len(CELLS[K])):
        keys = P.local(c)
        n = len(keys)
        for i, ki in enumerate(keys):
            if ki not in g:
                continue
            acc(WR, g[ki], b[c].e[i])
            for j, kj in enumerate(keys):
                if kj in g:
                    acc(WL, (g[ki], g[kj]), A[c].e[i * n + j])
                else:
                    acc(WR, g[ki], alg.mul(-1, alg.mul(A[c].e[i * n + j], P.faces[kj[0]][1][kj[1]])))
    for f, (nd, fx, load, rob) in enumerate(P.faces):
        for i in range(nd):
            if (f, i) in g:
                acc(WR, g[f, i], load[i])
                for j in range(nd):
                    if rob and (f, j) in g:
                        acc(WL, (g[f, i], g[f, j]), rob[i][j])
    err = compare(L, R, WL, WR, P.nfree)
    return (False, err) if err else (True, "%d unknowns, %d imposed" % (P.nfree, sum(len(x[1]) for x in P.faces)))


def stokes(tu, q, K, spec, cd, fd, full):
    M = Mesh(tu, K)
    d, nc, nf = M.d, len(CELLS[K]), len(FACES[K])
    P = Prob(M, True, spec, [fd] * nf)
    cb = d * comb(cd + d, d)
    pb = comb(fd + d, d)
    nl = [cb + n for n in P.nl]
    A = [matv("a%d" % c, n, n) for c, n in enumerate(nl)]
    Bm = [matv("b%d" % c, pb, n) for c, n in enumerate(nl)]
    b = [matv("r%d" % c, n) for c, n in enumerate(nl)]
    n = nc * cb + P.nfree + nc * pb + 1
    X = [alg.var("s%d" % i) for i in range(n)]
    o = M.C.call(q + "_" + K, [M.C.pts(), M.ids, spec_seq(spec), FAC, cd, fd, Seq(A), Seq(b), Mat(n, 1, X), Seq(Bm)])
    L, R, loc = (o.f[x] for x in ("L", "R", "loc"))
    if len(loc.e) != 2 * nc:
        return False, "unexpected number of local solutions"
    read, g = [], {}
    pos = lambda v: next((j for j, x in enumerate(X) if v is x), None)
    for c in range(nc):
        v, p = col(loc.e[c]), col(loc.e[nc + c])
        if len(v) != nl[c] or len(p) != pb:
            return False, "cell %d: velocity of size %d and pressure of size %d, expected %d and %d" % (c, len(v), len(p), nl[c], pb)
        for i in range(cb):
            g["c", c, i] = pos(v[i])
        for i in range(pb):
            g["p", c, i] = pos(p[i])
        read += list(zip(P.local(c), v[cb:]))
    if None in g.values():
        return False, "a cell velocity or pressure component is no unknown of the system"
    gf, err = number(P, read, X)
    if err:
        return False, err
    g.update(gf)
    used = set(g.values())
    if len(used) != len(g) or len(used) != n - 1:
        return False, "the numbering of the unknowns is not one-to-one"
    mult = next(i for i in range(n) if i not in used)
    WL, WR = {}, {}
    for c in range(nc):
        keys = [("c", c, i) for i in range(cb)] + P.local(c)
        m = len(keys)
        fixed = lambda k: P.faces[k[0]][1][k[1]]
        for i, ki in enumerate(keys):
            if ki not in g:
                continue
            if full or ki[0] == "c":
                acc(WR, g[ki], b[c].e[i])
            for j, kj in enumerate(keys):
                if kj in g:
                    acc(WL, (g[ki], g[kj]), A[c].e[i * m + j])
                else:
                    acc(WR, g[ki], alg.mul(-1, alg.mul(A[c].e[i * m + j], fixed(kj))))
        el = M.C.elem(CELLS[K][c])
        pbs = M.C.basis("cb_" + K, [M.ids, c, fd])
        for i in range(pb):
            gp = g["p", c, i]
            for j, kj in enumerate(keys):
                v = Bm[c].e[i * m + j]
                if kj in g:
                    acc(WL, (gp, g[kj]), v)
                    acc(WL, (g[kj], gp), v)
                else:
                    acc(WR, gp, alg.mul(-1, alg.mul(v, fixed(kj))))
            mean = integral(el, pbs[i][0])
            acc(WL, (gp, mult), mean)
            acc(WL, (mult, gp), mean)
    err = compare(L, R, WL, WR, n)
    return (False, err) if err else (True, "%d unknowns" % n)


def refused(tu, q, K, vec, spec, cd, fd, nl=False):
    """contradictory conditions have to be refused"""
    M = Mesh(tu, K)
    try:
        r = condensed(tu, q, K, vec, spec, cd, fd, nl=nl)
    except Thrown:
        return True, "refused"
    return False, "contradictory conditions on one face are accepted"


def one(tu, j):
    kind, a, k = j
    return {"cond": condensed, "stokes": stokes, "refused": refused}[kind](tu, *a, **k)


def jobs(tier):
    J = []
    T = tier == "thorough"

    def add(oid, kind, *a, **k):
        J.append((oid, (kind, a, k)))
    for K in ("t2", "t3"):
        d, nb, nf = D[K], len(bfaces(K)), len(FACES[K])
        fds = (0, 1, 2) if T and d == 2 else (0, 1)
        for fd in fds:
            everything = [(0, DIRI, i + 1) for i in range(nb)]
            add("scalar/old/%s/%d" % (K, fd), "cond", "diff0", K, False, [(4, DIRI, None)], fd, fd, fac=1)
            S = [("nothing", []), ("dirichlet", everything), ("mixed", [(0, DIRI, 2), (1, NEU, 1), (2, ROB, 3)]),
                 ("mixed2", [(2, ROB, 1), (0, DIRI, 4), (1, NEU, 2), (1, NEU, 3)]), ("everywhere", [(4, 0, None)])]
            for nm, s in S:
                for q in ("diffb", "prim"):
                    add("scalar/%s/%s/%d/%s" % (q, K, fd, nm), "cond", q, K, False, s, fd + 1, fd)
            types = [DIRI, CLAMPED, DX, DY] + ([DXDY] if d == 2 else [DZ, DXDY, DXDZ, DYDZ])
            if d == 3 and fd > 0 and not T:
                types = [DIRI, DX, DY, DXDZ]
            V = [("%s" % TNAME[t], [(0, t, 2), (0, DIRI, 1), (1, NEU, 3)]) for t in types]
            V += [("%s+neumann" % TNAME[t], [(0, t, 2), (1, NEU, 2), (0, t, 3), (1, NEU, 4)]) for t in types if t not in (DIRI, CLAMPED) and not (t == DXDY and d == 2)]
            V += [("nothing", []), ("everywhere", [(4, 0, None)])]
            for nm, s in V:
                for q in ("mech", "mechn", "vprim", "vprimn", "vmech"):
                    if d == 3 and fd == 1 and q in ("vprim", "mech") and not T:
                        continue
                    add("vector/%s/%s/%d/%s" % (q, K, fd, nm), "cond", q, K, True, s, fd + 1, fd, nl=q in ("mechn", "vprimn", "vmech"))
            for q in ("vprim", "vprimn", "vmech"):
                add("vector/%s/%s/%d/contact" % (q, K, fd), "cond", q, K, True, [(0, DX, 2), (5, SIGF, 1), (3, SIGF, 3)], fd + 1, fd,
                    nl=q != "vprim", contact=True)
            for q in ("stok", "stoka", "stokl"):
                for nm, s in (("dirichlet", everything), ("part", [(0, DIRI, 3), (0, DIRI, 1)])):
                    if d == 3 and fd == 1 and not T:
                        continue
                    add("stokes/%s/%s/%d/%s" % (q, K, fd, nm), "stokes", q, K, s, fd, fd, q != "stok")
            bf = bfaces(K)
            add("condensed/%s/%d/default" % (K, fd), "cond", "cond", K, False, [], fd, fd, plain=bf)
            for nm, pl in (("one", [2]), ("inner", [0, 2, 4]), ("boundary", bf)):
                add("condensed/%s/%d/%s" % (K, fd, nm), "cond", "condd", K, False, [], fd, fd, plain=pl, dirv=[int(i in pl) for i in range(nf)])
            add("condensed/%s/%d/empty" % (K, fd), "cond", "condd", K, False, [], fd, fd, plain=bf, dirv=[])
        mixes = [("%s" % "".join(map(str, dg)), dg, [1] * nf) for dg in ([i % 2 for i in range(nf)], [(i + 1) % 3 % 2 for i in range(nf)])]
        for nm, dg, un in mixes:
            for q in ("vprimi", "vmechi"):
                for sn, s in (("dx", [(0, DX, 2), (0, DIRI, 1), (1, NEU, 3)]), ("neumann", [(1, NEU, 2), (0, CLAMPED, 4)])):
                    add("degrees/%s/%s/%s/%s" % (q, K, nm, sn), "cond", q, K, True, s, 1, 0, degs=dg, un=un, nl=q == "vmechi")
                    # faces without unknowns: one inside, one on the boundary without a condition
                    h = (2, 5) if d == 2 and sn == "dx" else (2, 0) if d == 2 else (0, 5)
                    add("degrees/%s/%s/%s/holes-%s" % (q, K, nm, sn), "cond", q, K, True, s, 1, 0, degs=dg,
                        un=[int(i not in h) for i in range(nf)], nl=q == "vmechi")
        for q in ("diffb", "prim"):
            add("conflict/%s/%s/dirichlet+neumann" % (q, K), "refused", q, K, False, [(0, DIRI, 2), (1, NEU, 2)], 0, 0)
            add("conflict/%s/%s/robin+neumann" % (q, K), "refused", q, K, False, [(2, ROB, 2), (1, NEU, 2)], 0, 0)
            add("conflict/%s/%s/dirichlet+robin" % (q, K), "refused", q, K, False, [(0, DIRI, 2), (2, ROB, 2)], 0, 0)
        for q in ("mech", "mechn", "vprim", "vprimn", "vmech"):
            add("conflict/%s/%s/dirichlet+neumann" % (q, K), "refused", q, K, True, [(0, DIRI, 2), (1, NEU, 2)], 0, 0, nl=q in ("mechn", "vprimn", "vmech"))
            add("conflict/%s/%s/clamped+neumann" % (q, K), "refused", q, K, True, [(0, CLAMPED, 2), (1, NEU, 2)], 0, 0, nl=q in ("mechn", "vprimn", "vmech"))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/assembly.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, j[1][0] + "_" + j[1][1]), r, "assembly")
    return rep.finish(
        "abstract interpretation of whole assemblies (numbering, assembly of every cell, loads, solution read-back) with symbolic local "
        "matrices, right-hand sides and solutions: the unknowns read back define a one-to-one numbering, imposed components read their "
        "projected data, and matrix and right-hand side equal the sums the conditions define",
        ["a mesh of four triangles and one of two tetrahedra; data of the conditions affine",
         "integrals are exact (degrees of the rules are the subject of H03)"],
        analysed={"probes": sorted({j[1][0] for _, j in J}), "functions": len(tu.functions)})
