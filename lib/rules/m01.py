"""M01: what a mesh answers about its topology is what is stored.  The oracle are the connectivity tables the mesh was built from:
sizes, numbering (lookup, offset), faces of a cell, boundary flags and ids through every way of asking, iteration over boundary
and internal faces, neighbours, marking of internal interfaces; elements that are not in the mesh are refused."""
from .sym import *
from .g01 import where_of
import front

PROBE = "topo"
NO = 1000


class Topo:
    def __init__(s, name, fam, faces, cells, cpts, cfaces, np):
        s.name, s.fam, s.faces, s.cells, s.cpts, s.cf, s.np = name, fam, faces, cells, cpts, cfaces, np
        assert [tuple(key(fam, f)) for f in faces] == sorted(tuple(key(fam, f)) for f in faces)
        assert [tuple(c) for c in cells] == sorted(tuple(c) for c in cells), name
        s.owners = [[i for i, c in enumerate(cfaces) if f in c] for f in range(len(faces))]
        s.bnd = [f for f in range(len(faces)) if len(s.owners[f]) == 1]


def key(fam, f):
    return f[:len(f) // 2] if fam == "g3" else f


def simplices(name, fam, cells, np):
    n = {"s2": 3, "s3": 4}[fam]
    sub = {"s2": [(0, 1), (1, 2), (0, 2)], "s3": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]}[fam]
    cells = sorted(tuple(sorted(c)) for c in cells)
    faces = sorted({tuple(c[i] for i in f) for c in cells for f in sub})
    return Topo(name, fam, [list(f) for f in faces], [list(c) for c in cells], [list(c) for c in cells],
                [[faces.index(tuple(c[i] for i in f)) for f in sub] for c in cells], np)


def cart2(name, nx, ny):
    N = lambda i, j: i + j * (nx + 1)
    cells = sorted([N(i, j), N(i + 1, j), N(i, j + 1), N(i + 1, j + 1)] for i in range(nx) for j in range(ny))
    sub = [(0, 1), (0, 2), (1, 3), (2, 3)]
    faces = sorted({tuple(c[i] for i in f) for c in cells for f in sub})
    return Topo(name, "c2", [list(f) for f in faces], cells, cells,
                [[faces.index(tuple(c[i] for i in f)) for f in sub] for c in cells], (nx + 1) * (ny + 1))


def cart3(name, nx, ny, nz):
    N = lambda i, j, k: i + (nx + 1) * (j + k * (ny + 1))
    cells = sorted([N(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)]
                   for i in range(nx) for j in range(ny) for k in range(nz))
    # the documented vertex lists of the faces
    sub = [(0, 2, 6, 4), (1, 3, 7, 5), (0, 1, 3, 2), (4, 5, 7, 6), (0, 4, 5, 1), (2, 6, 7, 3)]
    faces = sorted({tuple(c[i] for i in f) for c in cells for f in sub})
    return Topo(name, "c3", [list(f) for f in faces], cells, cells,
                [[faces.index(tuple(c[i] for i in f)) for f in sub] for c in cells], (nx + 1) * (ny + 1) * (nz + 1))


def poly2(name, polys, np):
    edges = sorted({tuple(sorted((p[i], p[(i + 1) % len(p)]))) for p in polys for i in range(len(p))})
    cs = sorted((sorted(edges.index(tuple(sorted((p[i], p[(i + 1) % len(p)])))) for i in range(len(p))), p) for p in polys)
    return Topo(name, "g2", [list(e) for e in edges], [c[0] for c in cs], [list(c[1]) for c in cs], [c[0] for c in cs], np)


def chain(name, n):
    return Topo(name, "g1", [[i] for i in range(n + 1)], [[i, i + 1] for i in range(n)], [[i, i + 1] for i in range(n)],
                [[i, i + 1] for i in range(n)], n + 1)


def poly3(name, flists, polys, np):
    """flists: point cycles of the faces; polys: sets of face indices"""
    edges = sorted({tuple(sorted((p[i], p[(i + 1) % len(p)]))) for p in flists for i in range(len(p))})
    fs = [(sorted(edges.index(tuple(sorted((p[i], p[(i + 1) % len(p)])))) for i in range(len(p))), p) for p in flists]
    order = sorted(range(len(fs)), key=lambda i: fs[i][0])
    new = {o: i for i, o in enumerate(order)}
    cs = sorted(sorted(new[f] for f in p) for p in polys)
    pts = [sorted({x for f in c for x in fs[order[f]][1]}) for c in cs]
    return Topo(name, "g3", [fs[o][0] + list(fs[o][1]) for o in order], cs, pts, cs, np)


CUBE = [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)]
PYR = [(4, 5, 8), (5, 7, 8), (7, 6, 8), (6, 4, 8)]          # on the top of the cube
TOPOS = [simplices("star", "s2", [(0, 1, 4), (0, 3, 4), (1, 2, 4), (2, 3, 4)], 5),
         simplices("strip", "s2", [(5, 3, 1), (3, 1, 0), (5, 2, 3)], 6),
         simplices("two", "s3", [(0, 1, 2, 3), (0, 1, 2, 4)], 5),
         simplices("three", "s3", [(0, 1, 2, 3), (0, 1, 2, 4), (1, 2, 4, 5)], 6),
         cart2("2x2", 2, 2), cart2("3x1", 3, 1), cart3("2x1x1", 2, 1, 1), cart3("1x2x1", 1, 2, 1),
         chain("chain4", 4), chain("chain1", 1),
         poly2("house", [[0, 1, 2, 3], [3, 2, 4], [1, 5, 4, 2]], 6),
         poly2("prefix", [[0, 1, 2], [0, 2, 3, 4, 5]], 6),
         poly3("cube+pyramid", CUBE + PYR, [range(6), [1, 6, 7, 8, 9]], 9)]


def sv(xs):
    return Seq([int(x) for x in xs])


def svv(xs):
    return Seq([sv(x) for x in xs])


def ints(v):
    return [int(vg.num(x)) for x in v.e]


def flagset(t):
    n = len(t.faces)
    rec = {"distinct": [t.bnd.index(f) + 1 if f in t.bnd else 0 for f in range(n)],
           "two": [(5 if t.bnd.index(f) % 2 else 1) if f in t.bnd else 0 for f in range(n)],
           "none": [0] * n}
    inner = [f for f in range(n) if f not in t.bnd]
    if inner:           # an interface inside the domain carries a boundary id
        rec["interface"] = [3 if f == inner[-1] else 2 if f in t.bnd else 0 for f in range(n)]
        rec["interface0"] = [1 if f == inner[0] else 7 if f in t.bnd else 0 for f in range(n)]    # its number is zero
    return rec


def cl_face_order(t, i):
    """the faces of cell i in the order the library documents for the family, as ids"""
    c = t.cells[i]
    if t.fam == "s3":
        order = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]
        return [t.faces.index([c[k] for k in f]) for f in order]
    return t.cf[i]


def expect(t, fl, what, i=None):
    n, m = len(t.cells), len(t.faces)
    b = [f for f in range(m) if fl[f]]
    if what == "sizes":
        return [n, m, t.np, len(b), m - len(b), n, n, n, m, t.np]
    if what == "iter":
        inn = [f for f in range(m) if not fl[f]]
        return b + [NO] + b + [NO] + b + [NO] + inn + [NO] + sorted({fl[f] - 1 for f in b})
    if what == "iterid":
        x = [f for f in b if fl[f] - 1 == i]
        return [len(x)] + x
    if what == "mark":
        return [x for f in range(m) for x in
                ((fl[f] - 1 if fl[f] else 0), int(fl[f] > 0), int(fl[f] > 0 and len(t.owners[f]) == 2))]
    if what == "face":
        return [i, i] + [int(fl[i] > 0)] * 3 + ([fl[i] - 1, fl[i] + 9, 1, 0] if fl[i] else [0, 0, 0, 0])


def check_cell(t, fl, i, got):
    """faces() and faces_id() list the same faces in the same order, each face of the cell once"""
    k = len(t.cf[i])
    if got[:3] != [i, i, k]:
        return "lookup, offset, howmany_faces give %s, expected %s" % (got[:3], [i, i, k])
    fs, got = got[3:3 + 2 * k], got[3 + 2 * k:]
    ids, got = got[:k], got[k:]
    if fs[0::2] != ids or fs[1::2] != ids:
        return "faces() gives the faces %s (offsets %s) and faces_id() %s" % (fs[0::2], fs[1::2], ids)
    if sorted(ids) != sorted(t.cf[i]):
        return "the faces of the cell are %s, not %s" % (sorted(t.cf[i]), ids)
    p = len(t.cpts[i])
    if got[:p] != list(t.cpts[i]) and not (t.fam in ("s2", "s3") and sorted(got[:p]) == t.cpts[i]):
        return "point ids %s, expected %s" % (got[:p], t.cpts[i])
    want = [3 * i + 1, 5 * i + 2, int(any(fl[f] for f in t.cf[i]))]
    if got[p:] != want:
        return "domain id, tag, has_faces_on_boundary are %s, expected %s" % (got[p:], want)
    return None


def absent(t):
    """elements that are not in the mesh, sorting before, between and after the stored ones"""
    if t.fam in ("s2", "s3", "c2", "c3", "g1"):
        n = len(t.cells[0])
        c = [[t.np + i for i in range(n)], t.cells[0][:-1] + [t.cells[0][-1] + 40], t.cells[-1][:-1] + [t.cells[-1][-1] + 40]]
        c.append([0] * (n - 1) + [1] if t.fam != "g1" else [0, 0])
        cells = [(x, x) for x in c if x not in t.cells]
        n = len(t.faces[0])
        f = [[t.np + 3 + i for i in range(n)], t.faces[0][:-1] + [t.faces[0][-1] + 40], t.faces[-1][:-1] + [t.faces[-1][-1] + 40]]
        return cells, [x for x in f if x not in t.faces]
    nf = len(t.faces)
    c = [t.cells[0] + [nf + 3], t.cells[0][:-1], [nf + i for i in range(3)], t.cells[-1][:-1] + [t.cells[-1][-1] + 1]]
    cells = [(x, [0, 1, 2]) for x in c if x not in t.cells]
    if t.fam == "g2":
        f = [[0, t.np + 2], [t.np + 1, t.np + 2], [t.faces[0][0], t.faces[-1][1] + 1]]
        return cells, [x for x in f if x not in t.faces]
    e = [key("g3", f) for f in t.faces]
    f = [e[0] + [90], e[0][:-1], [88, 89, 90], e[-1][:-1] + [e[-1][-1] + 7]]
    return cells, [x + [0] * len(x) for x in f if x not in e]


def jobs(tier):
    J = []
    for t in TOPOS:
        for fn, fl in flagset(t).items():
            base = "%s/%s/%s" % (t.fam, t.name, fn)
            J.append((base + "/sizes", (t, fl, "sizes", None)))
            J.append((base + "/iteration", (t, fl, "iter", None)))
            J.append((base + "/mark", (t, fl, "mark", None)))
            for b in sorted({x - 1 for x in fl if x} | {7}):
                J.append((base + "/id/%d" % b, (t, fl, "iterid", b)))
            for f in range(len(t.faces)):
                if fn == "two" or tier == "thorough" or f in (0, len(t.faces) // 2, len(t.faces) - 1):
                    J.append((base + "/face/%d" % f, (t, fl, "face", f)))
                    for h in (0, 1):
                        J.append((base + "/boundary_id/%d/%s" % (f, "id" if h else "face"), (t, fl, "bid", (f, h))))
            for c in range(len(t.cells)):
                J.append((base + "/cell/%d" % c, (t, fl, "cell", c)))
            if fn in ("two", "interface", "interface0"):
                J.append((base + "/neighbours", (t, fl, "neigh", None)))
        fl = flagset(t)["two"]
        cs, fs = absent(t)
        for i, c in enumerate(cs):
            for h in (0, 1):
                J.append(("%s/%s/absent-cell/%d/%s" % (t.fam, t.name, i, "offset" if h else "lookup"), (t, fl, "nocell", (c, h))))
        for i, f in enumerate(fs):
            for h in range(4):
                J.append(("%s/%s/absent-face/%d/%s" % (t.fam, t.name, i, ("lookup", "offset", "is_boundary", "boundary_id")[h]),
                          (t, fl, "noface", (f, h))))
        both = [(c, p) for c, p in zip(t.cells, t.cpts)] + [(c, p) for c, p in cs]
        for i, a in enumerate(both):
            for k, b in enumerate(both[:i + 1]):
                J.append(("%s/%s/order/%d/%d" % (t.fam, t.name, i, k), (t, fl, "order", (a, b))))
        fall = t.faces + fs
        for i, a in enumerate(fall):
            for k, b in enumerate(fall[:i + 1]):
                if abs(i - k) < 3 or tier == "thorough":
                    J.append(("%s/%s/face-order/%d/%d" % (t.fam, t.name, i, k), (t, fl, "forder", (a, b))))
    for fam, d in (("s2", 2), ("s3", 3), ("c2", 2), ("c3", 3), ("g1", 1), ("g2", 2), ("g3", 3)):
        for i, ps in enumerate(POINTS[d]):
            J.append(("%s/bounding-box/%d" % (fam, i), (fam, d, "bbox", ps)))
        J.append(("%s/transform" % fam, (fam, d, "transform", None)))
    return J


from fractions import Fraction as Fr
POINTS = {1: [[(3,), (1,), (2,)], [(1,), (2,), (3,)], [(-1,)], [(2,), (2,), (Fr(-5, 2),), (7,)]],
          2: [[(3, 1), (1, 3), (2, 2)], [(0, 0), (1, 0), (0, 1), (1, 1)], [(-1, 5), (-2, 6), (-3, 4)], [(5, 5), (0, 9), (9, 0), (-1, -1)]],
          3: [[(3, 1, 2), (1, 3, 0), (2, 2, 9)], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
              [(-1, 5, -1), (-2, 6, -8), (-3, 4, -2)], [(5, 5, 5), (9, 0, 1), (0, 9, 1), (1, 0, 9)]]}


def cmp4(a, b):
    return [int(a == b), int(a == b), int(a < b), int(b < a)]


def one(tu, job):
    t, fl, what, i = job
    if what in ("bbox", "transform"):
        fam, d = t, fl
        q = "%s_%s" % (what, fam)
        if what == "bbox":
            v = run(tu, q, [Seq([cpt([Fr(c) for c in p]) for p in i])])[1]
            got = [[Fr(vg.num(c)) for c in vec(p)] for p in v.e]
            lo, hi = [min(p[k] for p in i) for k in range(d)], [max(p[k] for p in i) for k in range(d)]
            if got != [lo, hi, lo, hi]:
                return False, "bounding box of %s is %s" % (pl(i), " ".join(pl(got)))
            return True, "component-wise extrema"
        ps = [[alg.var("x%d%d" % (k, c)) for c in range(d)] for k in range(3)]
        a, b = alg.var("a"), alg.var("b")
        v = run(tu, q, [Seq([cpt(p) for p in ps]), a, b])[1]
        for p, r in zip(ps, v.e):
            for x, y in zip(p, vec(r)):
                if not alg.eq(y, alg.mul(x, alg.add(a, b))):
                    return False, "transform does not replace every point by its image"
        return len(v.e) == 3, "each point replaced by its image"
    args = [svv(t.faces), svv(t.cells), svv(t.cpts), sv(fl), t.np]
    if what in ("order", "forder"):
        a, b = i
        if what == "order":
            v = run(tu, "order_" + t.fam, [sv(a[0]), sv(a[1]), sv(b[0]), sv(b[1])])[1]
            ka, kb = list(a[0]), list(b[0])
            if t.fam in ("s2", "s3"):
                ka, kb = sorted(ka), sorted(kb)
            if t.fam == "g1":
                ka, kb = sorted(ka), sorted(kb)
        else:
            v = run(tu, "forder_" + t.fam, [sv(a), sv(b)])[1]
            ka, kb = key(t.fam, a), key(t.fam, b)
            if t.fam in ("s2", "s3", "g2"):
                ka, kb = sorted(ka), sorted(kb)
        got, want = ints(v), cmp4(ka, kb)
        return got == want, "==, ==, <, < of %s and %s give %s (expected %s)" % (ka, kb, got, want)
    extra = {"sizes": [], "iter": [], "mark": [], "neigh": [], "iterid": [i], "face": [i], "cell": [i]}
    try:
        if what in extra:
            v = run(tu, "%s_%s" % (what, t.fam), args + extra[what])[1]
        elif what == "bid":
            v = run(tu, "bid_" + t.fam, args + [i[0], i[1]])[1]
        elif what == "nocell":
            v = run(tu, "nocell_" + t.fam, args + [sv(i[0][0]), sv(i[0][1]), i[1]])[1]
        elif what == "noface":
            v = run(tu, "noface_" + t.fam, args + [sv(i[0]), i[1]])[1]
        got = ints(v)
    except Thrown as e:
        got = "refused"
    if what == "cell":
        if got == "refused":
            return False, "a query about a cell of the mesh is refused"
        r = check_cell(t, fl, i, got)
        return r is None, r or "consistent with the stored connectivity"
    if what in ("nocell", "noface"):
        return got == "refused", "element %s, which is not in the mesh, is answered with %s" % (i[0], got)
    if what == "bid":
        want = [fl[i[0]] - 1] if fl[i[0]] else "refused"
    elif what == "neigh":
        if got == "refused":
            return False, "the connectivity of a conforming mesh is refused"
        k = 0
        for c in range(len(t.cells)):
            n = len(t.cf[c])
            for f, x in zip(got[k:k + 2 * n:2], got[k + 1:k + 2 * n:2]):
                w = ([o for o in t.owners[f] if o != c] or [NO])[0]
                if f not in t.cf[c] or x != w:
                    return False, "the neighbour of cell %d across face %d is %s, expected %s" % (c, f, x, w)
            k += 2 * n
        return True, "neighbours across each face"
    else:
        want = expect(t, fl, what, i)
    return got == want, "%s gives %s, expected %s" % (what, got, want)


def pl(ps):
    return ["(%s)" % ", ".join(str(c) for c in p) for p in ps]


LIB = {"sizes": "cells_size", "cell": "lookup", "face": "is_boundary", "bid": "boundary_id", "iter": "boundary_faces_begin",
       "iterid": "boundary_faces_size", "neigh": "neighbour_via", "mark": "mark_internal_faces",
       "bbox": "compute", "transform": "transform", "order": "operator<", "forder": "operator<"}
KIND = {"s": "simplicial", "c": "cartesian", "g": "generic"}


def anchor(tu, job):
    t, fl, what, i = job
    n = LIB.get(what) or ("offset" if i[1] == 1 else "lookup")
    fam = t if isinstance(t, str) else t.fam
    for f in tu.functions:
        if front.short(f["q"]) == n and "body" in f and "/mesh.hpp" in tu.file(f) or \
                what in ("order", "forder") and front.short(f["q"]) == n and KIND[fam[0]] + "_element" in f["q"]:
            return tu.where(f)
    return what


def main(rep):
    tu = front.export(front.PROBES + "/topo.cpp")
    J = jobs(rep.tier)
    memo = {}
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        k = (j[2], j[0] if isinstance(j[0], str) else j[0].fam, j[3][1] == 1 if j[2] in ("nocell", "noface") else 0)
        if k not in memo:
            memo[k] = anchor(tu, j)
        collect(rep, oid, memo[k], r, "mesh query")
    return rep.finish(
        "constant propagation of whole meshes through every query; the answers must be those of the connectivity tables the mesh was "
        "built from, iteration must enumerate exactly the faces with the property, asking for an element that is not stored must be refused, "
        "and the order and equality of elements must be one consistent total order",
        ["topologies: %s" % ", ".join("%s %s" % (t.fam, t.name) for t in TOPOS)],
        analysed={"topologies": len(TOPOS), "functions": len(tu.functions)})
