"""M02: the meshes the generators and refinements produce are conforming partitions of their domain: tables of matching sizes,
every face of every cell stored once and found, one or two cells on each face and the boundary flag on exactly the faces with one,
boundary numbers of the sides, cells of positive size that add up to the domain; refinement splits each cell, whatever the
positions of the vertices, in children of the prescribed size inside it."""
from .sym import *
from fractions import Fraction
from itertools import combinations
import front

PROBE = "meshgen"
SIDES2 = {0: (1, 0), 1: (0, 1), 2: (1, 1), 3: (0, 0)}
SIDES3 = {0: (2, 0), 1: (1, 0), 2: (0, 0), 3: (2, 1), 4: (1, 1), 5: (0, 1)}      # as in renumber_hypercube_boundaries
QUAD = [(0, 1), (0, 2), (1, 3), (2, 3)]
CYCLE = [0, 1, 3, 2]
HEX = [(0, 2, 6, 4), (1, 3, 7, 5), (0, 1, 3, 2), (4, 5, 7, 6), (0, 4, 5, 1), (2, 6, 7, 3)]


def num_(x):
    if isinstance(x, Obj):
        x = x.f.get("id_val", x)
    return int(vg.num(x))


class Dump:
    def __init__(s, v, fam):
        s.fam = fam
        s.n = [num_(x) for x in v.f["n"].e]
        fc = [[num_(x) for x in r.e] for r in v.f["fcs"].e]
        cl = [[num_(x) for x in r.e] for r in v.f["cls"].e]
        s.fids, s.bnd, s.bid, s.int_, s.fp = [r[0] for r in fc], [r[1] for r in fc], [r[2] for r in fc], [r[3] for r in fc], [r[4:] for r in fc]
        s.cids, s.sd = [r[0] for r in cl], [r[1] for r in cl]
        s.cf = [r[3:3 + r[2]] for r in cl]
        s.cp = [r[3 + r[2]:] for r in cl]
        s.pts = [vec(p) for p in v.f["pts"].e]


def local_faces(fam, p):
    """point sets of the faces of a cell with points p, in the numbering of the family"""
    if fam == "s2":
        return list(combinations(p, 2))
    if fam == "s3":
        return list(combinations(p, 3))
    if fam == "c2":
        return [tuple(p[i] for i in f) for f in QUAD]
    if fam == "c3":
        return [tuple(p[i] for i in f) for f in HEX]
    if fam == "g1":
        return [(x,) for x in p]
    return [(p[i], p[(i + 1) % len(p)]) for i in range(len(p))]


def topology(d, interfaces=()):
    """None, or what is wrong; interfaces: cell pairs are allowed to meet on faces marked as internal interfaces"""
    np, nn, nf, nb, nc, ns = d.n
    if len(d.pts) != np or len(d.fp) != nf or len(d.cp) != nc:
        return "iteration gives %d points, %d faces and %d cells of %d, %d and %d" % (len(d.pts), len(d.fp), len(d.cp), np, nf, nc)
    if nn != np or nb != nf or ns != nc:
        return "%d nodes for %d points, boundary data of %d of the %d faces, subdomain data of %d of the %d cells" % (nn, np, nb, nf, ns, nc)
    if d.fids != list(range(nf)) or d.cids != list(range(nc)):
        return "a face or a cell is not found at its own position"
    keys = [tuple(sorted(f)) for f in d.fp]
    if len(set(keys)) != nf:
        return "the same face is stored twice"
    if len({tuple(sorted(c)) for c in d.cp}) != nc:
        return "the same cell is stored twice"
    own = [[] for _ in keys]
    for c, (fs, p) in enumerate(zip(d.cf, d.cp)):
        if len(set(p)) != len(p) or max(p) >= np:
            return "cell %d has the points %s" % (c, p)
        want = sorted(tuple(sorted(f)) for f in local_faces(d.fam, p))
        if sorted(keys[f] for f in fs) != want:
            return "cell %d with the points %s has the faces %s" % (c, p, sorted(keys[f] for f in fs))
        for f in fs:
            own[f].append(c)
    for f, o in enumerate(own):
        if not 1 <= len(o) <= 2:
            return "face %d (points %s) belongs to %d cells" % (f, keys[f], len(o))
        if interfaces and d.bnd[f] and len(o) == 2:
            if not d.int_[f]:
                return "face %d (points %s), an internal interface, is marked as an outer boundary" % (f, keys[f])
            continue
        if d.bnd[f] != (len(o) == 1):
            return "face %d (points %s) of %d cells is%s marked as boundary" % (f, keys[f], len(o), "" if d.bnd[f] else " not")
        if d.int_[f]:
            return "face %d is marked as internal interface" % f
    if {x for c in d.cp for x in c} != set(range(np)):
        return "there are points that belong to no cell"
    return None


def sub(a, b):
    return [alg.sub(x, y) for x, y in zip(a, b)]


def det(rows):
    if len(rows) == 1:
        return rows[0][0]
    s = 0
    for j in range(len(rows)):
        m = alg.mul(rows[0][j], det([r[:j] + r[j + 1:] for r in rows[1:]]))
        s = alg.sub(s, m) if j % 2 else alg.add(s, m)
    return s


def size(d, c):
    """signed measure, times 1 for lines and boxes, 2 for plane cells, 6 for tetrahedra"""
    P = [d.pts[i] for i in d.cp[c]]
    if d.fam in ("s2", "s3"):
        return det([sub(q, P[0]) for q in P[1:]])
    if d.fam == "g1":
        return alg.sub(P[1][0], P[0][0])
    if d.fam == "c3":
        return det([sub(P[1], P[0]), sub(P[2], P[0]), sub(P[4], P[0])])
    if d.fam == "c2":
        P = [P[i] for i in CYCLE]
    s = 0
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        s = alg.add(s, alg.sub(alg.mul(a[0], b[1]), alg.mul(a[1], b[0])))
    return s


UNIT = {"s2": 2, "s3": 6, "c2": 2, "g2": 2, "c3": 1, "g1": 1}


def partition(d, sides):
    """the cells fill the unit square or cube, and the boundary faces carry the number of their side"""
    tot = Fraction(0)
    for c in range(len(d.cp)):
        m = size(d, c)
        if not is_const(m):
            raise Und("symbolic size")
        if abs(m) < 1e-12:
            return "cell %d (points %s) has no interior" % (c, [[str(x) for x in d.pts[i]] for i in d.cp[c]])
        tot += abs(Fraction(m))
    if abs(float(tot) / UNIT[d.fam] - 1) > 1e-12:
        return "the cells cover a measure of %s instead of 1" % (float(tot) / UNIT[d.fam])
    for p in d.pts:
        if any(not is_const(x) or x < -1e-14 or x > 1 + 1e-14 for x in p):
            return "a point is outside the domain: %s" % [str(x) for x in p]
    for f in range(len(d.fp)):
        if d.bnd[f]:
            on = [s for s, (ax, v) in sides.items() if all(abs(d.pts[p][ax] - v) < 1e-14 for p in d.fp[f])]
            if on != [d.bid[f]]:
                return "the boundary face through %s is on side %s and has the number %d" % (
                    [[str(x) for x in d.pts[p]] for p in d.fp[f]], on, d.bid[f])
    return None


def coefs(x, names):
    """the coefficients of an affine combination of the named values, or None"""
    p = poly(x)
    ids = {list(poly(n))[0]: i for i, n in enumerate(names)}
    out = {}
    for m, c in p.items():
        if m not in ids:
            return None
        out[ids[m]] = c
    return out


def children(d0, d1, levels):
    """d1 refines d0, the points of d0 being symbolic: each cell of d1 lies in one cell of d0 and has its share of the measure"""
    n0 = len(d0.pts)
    dim = len(d0.pts[0])
    bary = []
    for p in d1.pts:
        cs = [coefs(p[k], [q[k] for q in d0.pts]) for k in range(dim)]
        if any(c is None or c != cs[0] for c in cs) or any(v < 0 for v in cs[0].values()) or sum(cs[0].values()) != 1:
            return "a point of the refined mesh is not a mean of points of the mesh"
        bary.append(frozenset(cs[0]))
    share = 2 ** (dim * levels)
    kids = [[] for _ in d0.cp]
    size0 = [size(d0, c) for c in range(len(d0.cp))]
    for c, p in enumerate(d1.cp):
        sup = frozenset().union(*[bary[i] for i in p])
        cand = [k for k, q in enumerate(d0.cp) if sup <= set(q)]
        if len(cand) != 1:
            return "cell %d of the refined mesh lies in %d cells of the mesh" % (c, len(cand))
        kids[cand[0]].append(c)
        if d0.fam != "c2":
            m = alg.mul(share, size(d1, c))
            if not (alg.eq(m, size0[cand[0]]) or alg.eq(m, alg.mul(-1, size0[cand[0]]))):
                return "cell %d of the refined mesh does not have 1/%d of the measure of the cell it lies in" % (c, share)
    for k, ch in enumerate(kids):
        if len(ch) != share:
            return "cell %d is refined in %d cells" % (k, len(ch))
        if d0.fam == "c2":
            s = 0
            for c in ch:
                s = alg.add(s, size(d1, c))
            if not alg.eq(s, size0[k]):
                return "the children of cell %d do not add up to it" % k
    got = {}
    f0 = {frozenset(f): i for i, f in enumerate(d0.fp)}
    for f, p in enumerate(d1.fp):
        if d1.bnd[f]:
            sup = frozenset().union(*[bary[i] for i in p])
            par = [i for k, i in f0.items() if sup <= k]
            if len(par) != 1 or not d0.bnd[par[0]] or d0.bid[par[0]] != d1.bid[f]:
                return "a boundary face of the refined mesh does not carry the number of the face it refines"
            got[par[0]] = got.get(par[0], 0) + 1
    for f in range(len(d0.fp)):
        if d0.bnd[f] and got.get(f) != 2 ** ((dim - 1) * levels):
            return "a boundary face is refined in %d boundary faces" % got.get(f, 0)
    return None


def parents(d0, d1):
    """the cell of d0 each cell of d1 lies in (after children)"""
    r = []
    for p in d1.cp:
        sup = set()
        for i in p:
            sup |= set(coefs(d1.pts[i][0], [q[0] for q in d0.pts]))
        r.append([k for k, q in enumerate(d0.cp) if sup <= set(q)][0])
    return r


# meshes whose boundary edges are in every place of their triangles
TRIS = {"one": (3, [(0, 1, 2)]), "two": (4, [(0, 1, 3), (0, 2, 3)]), "diagonal": (4, [(0, 1, 2), (1, 2, 3)]),
        "first": (5, [(0, 1, 2), (0, 1, 3), (0, 2, 4), (0, 3, 4)]), "mid": (5, [(0, 1, 2), (0, 2, 3), (1, 2, 4), (2, 3, 4)]),
        "interface": (4, [(0, 1, 2), (1, 2, 3)]), "split": (5, [(0, 1, 2), (0, 1, 3), (0, 2, 4), (0, 3, 4)]),
        "corner": (4, [(0, 1, 2), (0, 1, 3), (0, 2, 3)])}
# edges between two subdomains
INTERFACES = {"interface": [(1, 2)], "split": [(0, 1), (0, 4)]}
NPTS = {"s2": 5, "s3": 8, "c2": 9}


def dump(tu, fn, args, fam):
    I, v = run(tu, fn, args, {})
    return Dump(v, fam)


def bary_of(d, c):
    P = [d.pts[i] for i in d.cp[c]]
    return [sum((Fraction(p[k]) for p in P), Fraction(0)) / len(P) for k in range(len(P[0]))]


def inside(d, c, p):
    a, b, e = [d.pts[i] for i in d.cp[c]]
    s = [(y[0] - x[0]) * (p[1] - x[1]) - (y[1] - x[1]) * (p[0] - x[0]) for x, y in ((a, b), (b, e), (e, a))]
    return all(v > 0 for v in s) or all(v < 0 for v in s)


def one(tu, job):
    kind, a = job[0], job[1:]
    try:
        r = work(tu, kind, a)
    except Thrown as x:
        return False, "a query about an element of the mesh is refused (%s)" % (str(x)[:60])
    return r is None, r or "conforming"


def work(tu, kind, a):
    if kind == "gen":
        fam, r = a
        d = dump(tu, "gen_" + fam, [r], fam) if fam != "g2" else dump(tu, "gen_hex", [r], fam)
        return topology(d) or partition(d, SIDES3 if fam == "s3" else SIDES2)
    if kind == "moved":
        fam, r = a
        dim = int(fam[1])
        to = [cpt([alg.var("p%d%s" % (i, "xyz"[k])) for k in range(dim)]) for i in range(NPTS[fam])]
        d0 = dump(tu, "moved_" + fam, [Seq(to), 0], fam)
        d1 = dump(tu, "moved_" + fam, [Seq(to), r], fam)
        if len(d0.pts) != NPTS[fam]:
            raise Und("the initial mesh has %d points" % len(d0.pts))
        return topology(d0) or topology(d1) or children(d0, d1, r)
    if kind == "tris":
        name, lev, l = a
        n, tris = TRIS[name]
        edges = sorted({(t[i], t[j]) for t in tris for i, j in ((0, 1), (0, 2), (1, 2))})
        bnd = [1 if sum(set(e) <= set(t) for t in tris) == 1 else 2 * (e in INTERFACES.get(name, ())) for e in edges]
        to = [cpt([alg.var("p%dx" % i), alg.var("p%dy" % i)]) for i in range(n)]
        args = [Seq(to), Seq([x for t in tris for x in t]), Seq([x for e in edges for x in e]), Seq(bnd),
                Seq([3 * i + 2 for i in range(len(edges))])]
        d0 = dump(tu, "hier_tris", args + [0, 0], "s2")
        d1 = dump(tu, "hier_tris", args + [lev, l], "s2")
        it = INTERFACES.get(name, ())
        r = topology(d0, it) or topology(d1, it) or children(d0, d1, l)
        if r is None and l:
            kids = parents(d0, d1)
            if any(d1.sd[c] != d0.sd[k] for c, k in enumerate(kids)):
                r = "a cell of the refined mesh does not belong to the subdomain of the one it refines"
        return r
    if kind == "single":
        fam, n = a
        if fam in ("g1", "c2", "c3", "s2", "s3"):
            dim = int(fam[1])
            P = [cpt([alg.var("q%d%s" % (i, "xyz"[k])) for k in range(dim)]) for i in range(dim + 1)]
            H = [alg.var("h" + c) for c in "xyz"[:dim]]
            args = [alg.var("a"), alg.var("b")] if fam == "g1" else [P[0]] + H if fam[0] == "c" else P
        else:
            args = [Fraction(3), n]
        d = dump(tu, "single_" + fam, args, fam)
        if len(d.cp) != 1:
            return "the mesh has %d cells" % len(d.cp)
        r = topology(d)
        if r or fam == "g2":
            if not r and len(d.cp[0]) != n:
                r = "the polygon has %d sides instead of %d" % (len(d.cp[0]), n)
            return r
        if fam[0] == "s":
            want = det([sub(vec(q), vec(P[0])) for q in P[1:]])
        elif fam == "g1":
            want = alg.sub(args[1], args[0])
        else:
            want = 2 if fam == "c2" else 1
            for h in H:
                want = alg.mul(want, h)
        return None if alg.eq(size(d, 0), want) else "the cell is not the one asked for"
    if kind == "sizes":
        n0, lev = a
        I, v = run(tu, "hier_sizes", [n0, lev], {})
        got = [num_(x) for x in v.e]
        c = [4 ** (1 + n0 + i) for i in range(lev + 1)]
        want = [lev + 1, c[0], c[-1]] + c
        return None if got == want else "the hierarchy has the sizes %s, expected %s" % (got, want)
    if kind == "level":
        n0, lev, l = a
        d = dump(tu, "hier_dump", [n0, lev, l], "s2")
        c = dump(tu, "hier_dump", [n0, lev, 0], "s2")
        r = topology(d) or partition(d, SIDES2)
        if r:
            return r
        for k in range(len(d.cp)):
            par = [j for j in range(len(c.cp)) if inside(c, j, bary_of(d, k))]
            if len(par) != 1 or d.sd[k] != c.sd[par[0]]:
                return "cell %d of level %d is in subdomain %d, the cell it refines in %s" % (k, l, d.sd[k], [c.sd[j] for j in par])
        return None
    if kind in ("locate", "rebuilt"):
        n0, lev, l, lo, hi = a
        d = dump(tu, "hier_dump", [n0, lev, l], "s2")
        cs = range(len(d.cp))[lo:hi]
        P = Seq([cpt(bary_of(d, c)) for c in cs])
        if kind == "locate":
            I, v = run(tu, "hier_locate", [n0, lev, l, P], {})
            got = [num_(x) for x in v.e]
        else:
            I, v = run(tu, "hier_rebuilt", [2, lev, P], {})
            got = [num_(x) for x in v.e]
            if got[0] != lev + 1:
                return "%d levels after building %d" % (got[0], lev + 1)
            got = got[1:]
        return None if got == list(cs) else "the points inside the cells %s are found in %s" % (list(cs), got)
    if kind == "nolevel":
        n0, lev, l = a
        try:
            I, v = run(tu, "hier_locate", [n0, lev, l, Seq([cpt([Fraction(3, 7), Fraction(1, 5)])])], {})
        except Thrown:
            return None
        return "a point is located at level %d of a hierarchy of %d" % (l, lev + 1)


def jobs(tier):
    th = tier == "thorough"
    J = []
    for fam, m in (("s2", 4 if th else 3), ("s3", 2), ("c2", 3 if th else 2), ("g2", 2)):
        for r in range(m + 1):
            J.append(("gen/%s/%d" % (fam, r), ("gen", fam, r)))
    for fam, m in (("s2", 3 if th else 2), ("s3", 2 if th else 1), ("c2", 3 if th else 2)):
        for r in range(1, m + 1):
            J.append(("refine/%s/%d" % (fam, r), ("moved", fam, r)))
    for fam in ("g1", "s2", "s3", "c2", "c3"):
        J.append(("single/" + fam, ("single", fam, 0)))
    for n in range(3, 13 if th else 9):
        J.append(("single/polygon/%d" % n, ("single", "g2", n)))
    for n0, lev in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 0)) + (((0, 3), (1, 2)) if th else ()):
        J.append(("hierarchy/sizes/%d/%d" % (n0, lev), ("sizes", n0, lev)))
        for l in range(lev + 1):
            J.append(("hierarchy/level/%d/%d/%d" % (n0, lev, l), ("level", n0, lev, l)))
            n = 4 ** (1 + n0 + l)
            for lo in range(0, min(n, 256 if th else 32), 16):
                J.append(("hierarchy/locate/%d/%d/%d/%d" % (n0, lev, l, lo), ("locate", n0, lev, l, lo, lo + 16)))
        for l in (lev + 1, lev + 3):
            J.append(("hierarchy/nolevel/%d/%d/%d" % (n0, lev, l), ("nolevel", n0, lev, l)))
    for name in TRIS:
        for lev, l in ((1, 1), (2, 1), (2, 2)) + (((3, 3),) if th else ()):
            J.append(("hierarchy/tris/%s/%d/%d" % (name, lev, l), ("tris", name, lev, l)))
    J.append(("hierarchy/rebuilt", ("rebuilt", 1, 1, 1, 0, 16)))
    return J


LIB = {"gen": ("refine", "meshgen.hpp"), "moved": ("refine", "meshgen.hpp"), "single": ("make_single_element_mesh", "meshgen.hpp"),
       "sizes": ("build_hierarchy", "mesh_hierarchy.hpp"), "level": ("refine", "mesh_hierarchy.hpp"), "locate": ("locate_point", "mesh_hierarchy.hpp"),
       "rebuilt": ("build_hierarchy", "mesh_hierarchy.hpp"), "tris": ("refine", "mesh_hierarchy.hpp"), "nolevel": ("locate_recursive", "mesh_hierarchy.hpp")}
CLS = {"s2": "disk::simplicial_storage_class<2>", "s3": "simplicial_storage_class<3>", "c2": "cartesian_storage_class<2>",
       "c3": "cartesian_storage_class<3>", "g1": "generic_storage_class<1>", "g2": "generic_storage_class<2>"}


def anchor(tu, job):
    n, fl = LIB[job[0]]
    if job[0] == "gen" and job[1] == "g2":
        n = "make_level"
    elif job[0] == "gen" and job[2] == 0:
        n = "simple_mesher"
    best = None
    for f in tu.functions:
        if front.short(f["q"]).split("<")[0] == n and "body" in f and tu.file(f).endswith("/" + fl):
            txt = f["q"] + " ".join(tu.T(p["t"]) for p in f["params"] if "t" in p) + (f.get("cls") or "")
            if isinstance(job[1], int) or job[0] == "tris" or CLS[job[1]] in txt:
                return tu.where(f)
            best = best or tu.where(f)
    return best or n


def main(rep):
    tu = front.export(front.PROBES + "/meshgen.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, anchor(tu, j), r, "mesh generation")
    return rep.finish(
        "constant propagation of the generators; the tables of the mesh they produce must describe a conforming partition of the unit square or cube "
        "with numbered sides; the refinements are evaluated with symbolic vertices, children being compared to their parent as polynomials in the vertices",
        ["generated meshes are analysed up to the refinement levels listed in the obligations"],
        analysed={"obligations": len(J), "functions": len(tu.functions)})
