"""L01: a loader builds the mesh its file describes, and refuses a file it cannot read."""
from .sym import *
from fractions import Fraction as Fr
from itertools import permutations
import front
import streams

PROBE = "loaders"
NAME = "mesh.file"


def interp(tu, files):
    I = vg.Interp(tu, {"check_filename_extension()": lambda I, e: alg.TRUE})
    I.positive = set(alg.POSITIVE)
    I.limit_steps = 3000000
    I.files = files
    return I


def load(tu, fn, lines, *args):
    I = interp(tu, {NAME: lines} if lines is not None else {})
    fs = tu.fns(fn)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % fn)
    a = list(args) if args else [vg.Str(NAME)]
    r = I.call_fn(fs[0], a)
    if getattr(I, "threads", None) is not None and I.threads.live:
        raise vg.OutOfBounds("a thread is not joined")
    return r


def dump(v):
    g = lambda n: v.f[n]
    L = lambda s: [[int(vg.num(x)) for x in r.e] for r in s.e]
    return {"n": [int(vg.num(x)) for x in g("n").e], "fcs": L(g("fcs")), "eds": L(g("eds")), "cls": L(g("cls")), "pts": [vec(p) for p in g("pts").e]}


# ------------------------------------------------------------------ meshes
class Mesh:
    """points, cells (vertices in the order of the format), faces of each cell and the faces the file lists as boundary"""

    def __init__(self, pts, cells, faces, bnd, dom=None, edges=None):
        self.pts, self.cells, self.faces, self.bnd = pts, cells, faces, bnd
        self.dom = dom or [0] * len(cells)
        self.allf = []
        for c in faces:
            for f in c:
                if frozenset(f) not in [frozenset(x) for x in self.allf]:
                    self.allf.append(tuple(f))
        es = []
        for f in self.allf:
            n = len(f)
            for i in range(n):
                e = (f[i], f[(i + 1) % n])
                if frozenset(e) not in [frozenset(x) for x in es]:
                    es.append(e)
        self.edges = es if len(self.allf[0]) > 2 else None

    def boundary(self):
        n = {}
        for c in self.faces:
            for f in c:
                n[frozenset(f)] = n.get(frozenset(f), 0) + 1
        return n


def relabel(m, perm):
    """the same mesh with point i called perm[i]"""
    g = lambda t: tuple(perm[x] for x in t)
    pts = [None] * len(m.pts)
    for i, p in enumerate(m.pts):
        pts[perm[i]] = p
    return Mesh(pts, [g(c) for c in m.cells], [[g(f) for f in c] for c in m.faces], [(g(f), i) for f, i in m.bnd], m.dom)


def symbolic(n, d):
    return [tuple(alg.var("x%d_%d" % (i, k)) for k in range(d)) for i in range(n)]


def polygon(c):
    return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def outer(faces, ids):
    """(face, id) of every face that belongs to one cell only"""
    n = {}
    for c in faces:
        for f in c:
            n.setdefault(frozenset(f), []).append(f)
    out = [v[0] for v in n.values() if len(v) == 1]
    return [(f, ids[i % len(ids)]) for i, f in enumerate(out)]


def tri(perm=None, ids=(1, 7, 3, 12)):
    cells = [(0, 1, 4), (1, 2, 4), (4, 2, 3), (0, 4, 3)]
    faces = [polygon(c) for c in cells]
    m = Mesh(symbolic(5, 2), cells, faces, outer(faces, ids))
    return relabel(m, perm) if perm else m


def tet_faces(c):
    return [tuple(c[j] for j in range(4) if j != i) for i in range(4)]


CUBE6 = [(0, 1, 3, 7), (0, 1, 5, 7), (0, 2, 3, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 4, 6, 7)]


def tets(cells, n, perm=None, interface=False):
    faces = [tet_faces(c) for c in cells]
    b = outer(faces, (4, 2, 9, 1))
    if interface:
        seen = {}
        for c in faces:
            for f in c:
                seen[frozenset(f)] = seen.get(frozenset(f), 0) + 1
        b.append((next(f for c in faces for f in c if seen[frozenset(f)] == 2), 30))
    m = Mesh(symbolic(n, 3), cells, faces, b, [3 + i for i in range(len(cells))])
    return relabel(m, perm) if perm else m


def quads(nx, ny):
    P = lambda i, j: j * (nx + 1) + i
    cells = [(P(i, j), P(i + 1, j), P(i, j + 1), P(i + 1, j + 1)) for j in range(ny) for i in range(nx)]
    faces = [[(a, b), (a, c), (b, d), (c, d)] for a, b, c, d in cells]
    return Mesh(symbolic((nx + 1) * (ny + 1), 2), cells, faces, outer(faces, (0,)))


def hexes(nx, ny, nz):
    P = lambda i, j, k: (k * (ny + 1) + j) * (nx + 1) + i
    cells = [tuple(P(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)) for k in range(nz) for j in range(ny) for i in range(nx)]
    faces = [[tuple(c[q] for q in f) for f in ((0, 2, 6, 4), (1, 3, 7, 5), (0, 1, 3, 2), (4, 5, 7, 6), (0, 4, 5, 1), (2, 6, 7, 3))] for c in cells]
    return Mesh(symbolic((nx + 1) * (ny + 1) * (nz + 1), 3), cells, faces, outer(faces, (0,)))


def polys(coords=None, perm=None, dom=None):
    """a triangle, a quadrilateral, a pentagon and a hexagon on a square of side 3"""
    xy = [(0, 0), (1, 0), (3, 0), (3, 3), (1, 3), (0, 3), (0, 1), (1, 1), (2, 1), (2, 2), (3, 1)]
    cells = [(0, 1, 7, 6), (1, 2, 10, 8, 7), (8, 10, 3), (6, 7, 8, 9, 4, 5), (8, 3, 9), (9, 3, 4)]
    faces = [polygon(c) for c in cells]
    pts = [tuple(Fr(x, 3) for x in p) for p in xy] if coords == "unit" else [tuple(map(Fr, p)) for p in xy] if coords == "grid" else symbolic(11, 2)
    m = Mesh(pts, cells, faces, outer(faces, (5, 2, 8)), dom and [dom + i for i in range(len(cells))])
    return relabel(m, perm) if perm else m


def poly3(coords=None, perm=None):
    """two boxes over each other, the upper one cut into two prisms"""
    xyz = [(x, y, z) for z in (0, 1, 2) for y in (0, 1) for x in (0, 1)]
    low = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (1, 3, 7, 5), (3, 2, 6, 7), (2, 0, 4, 6)]
    p1 = [(4, 5, 7), (8, 11, 9), (4, 8, 9, 5), (5, 9, 11, 7), (7, 11, 8, 4)]
    p2 = [(4, 7, 6), (8, 10, 11), (7, 6, 10, 11), (6, 4, 8, 10), (7, 11, 8, 4)]
    # the interface is split so that it is shared: the lower box has the two triangles as faces
    low = [low[0], (4, 5, 7), (4, 7, 6)] + low[2:]
    cells = [(0, 1, 2, 3, 4, 5, 6, 7), (4, 5, 7, 8, 9, 11), (4, 7, 6, 8, 11, 10)]
    faces = [low, p1, p2]
    pts = [(Fr(x), Fr(y), Fr(z, 2)) for x, y, z in xyz] if coords == "unit" else [(Fr(x), Fr(y) + Fr(x, 4), Fr(z)) for x, y, z in xyz] if coords == "skew" else symbolic(12, 3)
    m = Mesh(pts, cells, faces, outer(faces, (6, 1, 11)), None)
    return relabel(m, perm) if perm else m


# ------------------------------------------------------------------ files
def netgen(m):
    L = [(len(m.pts),)] + list(m.pts) + [(len(m.cells),)]
    L += [(d,) + tuple(x + 1 for x in c) for c, d in zip(m.cells, m.dom)]
    return L + [(len(m.bnd),)] + [(i,) + tuple(x + 1 for x in f) for f, i in m.bnd]


def cartesian(m):
    return [(len(m.pts),)] + list(m.pts) + [(len(m.cells),)] + list(m.cells) + [(len(m.bnd),)] + [f for f, _ in m.bnd]


NGON = {3: "triangles", 4: "quadrangles", 5: "pentagons", 6: "hexagons"}


def fvca5(m, blank=False, dom=False):
    L = [("vertices",), (len(m.pts),)] + list(m.pts)
    order = []
    for n, w in NGON.items():
        cs = [i for i, c in enumerate(m.cells) if len(c) == n]
        order += cs
        L += [(w,), (len(cs),)] + [tuple(x + 1 for x in m.cells[i]) + ((m.dom[i],) if dom else ()) for i in cs]
    if blank:
        L += [(), ()]
    L += [("edges", "of", "the", "boundary"), (len(m.bnd),)] + [tuple(x + 1 for x in f) for f, _ in m.bnd]
    L += [("all", "edges"), (len(m.allf),)]
    own = {}
    for k, i in enumerate(order):
        for f in m.faces[i]:
            own.setdefault(frozenset(f), []).append(k + 1)
    for k, f in enumerate(m.allf):
        o = own[frozenset(f)]
        L.append((f[k % 2] + 1, f[1 - k % 2] + 1) + (tuple(o) if len(o) == 2 else (o[0], 0) if k % 3 else (0, o[0])))
    return L


def index(L, f):
    return [frozenset(x) for x in L].index(frozenset(f))


def celled(m, base):
    """Volumes->faces, Volumes->vertices, Faces->edges, Faces->vertices"""
    b = base
    vf = [tuple([len(c)] + [index(m.allf, f) + b for f in c]) for c in m.faces]
    vv = [tuple([len(c)] + [x + b for x in c]) for c in m.cells]
    fe = [tuple([len(f)] + [index(m.edges, (f[i], f[(i + 1) % len(f)])) + b for i in range(len(f))]) for f in m.allf]
    fv = [tuple([len(f)] + [x + b for x in f]) for f in m.allf]
    return vf, vv, fe, fv


def fvca6(m):
    vf, vv, fe, fv = celled(m, 1)
    L = [("line", i) for i in range(16)] + [("Vertices",), (len(m.pts),)] + list(m.pts)
    L += [("Volumes->faces",), (len(vf),)] + vf + [("Volumes->Verticess",), (len(vv),)] + vv
    L += [("Faces->Edgess",), (len(fe),)] + fe + [("Faces->Vertices",), (len(fv),)] + fv
    own = [[k + 1 for k, c in enumerate(m.faces) if frozenset(f) in map(frozenset, c)] for f in m.allf]
    L += [("Faces->Control", "volumes"), (len(own),)] + [tuple(o) if len(o) == 2 else (o[0], -1) for o in own]
    return L + [("Edges",), (len(m.edges),)] + [tuple(x + 1 for x in (e if k % 2 else e[::-1])) for k, e in enumerate(m.edges)]


def medit3(m):
    vf, vv, fe, fv = celled(m, 0)
    L = [("MeshVersionFormatted", 2), ("Dimension", 3), ("Vertices",), (len(m.pts),)] + list(m.pts)
    L += [("Volumes->Faces",), (len(vf),)] + vf + [("Volumes->Vertices",), (len(vv),)] + vv
    L += [("Faces->Edges",), (len(fe),)] + fe + [("Faces->Vertices",), (len(fv),)] + fv
    L += [("Faces->Control", "volumes"), (len(m.bnd),)] + [(index(m.allf, f), i) for f, i in m.bnd]
    return L + [("Edges",), (len(m.edges),)] + [e if k % 2 else e[::-1] for k, e in enumerate(m.edges)]


MEDIT = {3: "Triangles", 4: "Quadrilaterals", 5: "Pentagons", 6: "Hexagons"}


def medit2(m):
    L = [("MeshVersionFormatted", 2), ("Dimension", 3), ("Vertices", len(m.pts))] + [tuple(p) + (0, 0) for p in m.pts]
    for n, w in MEDIT.items():
        cs = [i for i, c in enumerate(m.cells) if len(c) == n]
        L += [(w, len(cs))] + [tuple(x + 1 for x in m.cells[i]) + (m.dom[i],) for i in cs]
    L += [("Edges", len(m.bnd))] + [tuple(x + 1 for x in (f if k % 2 else f[::-1])) + (i,) for k, (f, i) in enumerate(m.bnd)]
    return L + [("End",)]


def groups(m, of):
    g = {}
    for f, i in m.bnd:
        g.setdefault(i, []).append(index(of, f))
    return [("group%d" % i, i, len(v)) + tuple(v) for i, v in sorted(g.items())]


def poly2(m):
    fe = [tuple([k, len(c)] + [index(m.allf, f) for f in c]) for k, c in enumerate(m.faces)]
    fv = [tuple([k, len(c)] + list(c)) for k, c in enumerate(m.cells)]
    ev = [(k, 2) + (tuple(e) if k % 2 else tuple(e)[::-1]) for k, e in enumerate(m.allf)]
    g = groups(m, m.allf)
    return [("**BeginMesh",), ("*Dimension", 2), ("*Version", 1), ("*Nodes", len(m.pts))] + [(i,) + tuple(p) + (0,) for i, p in enumerate(m.pts)] \
        + [("*Edges->Nodes", len(ev))] + ev + [("*Edges->Groups", len(g))] + g + [("*Faces->Nodes", len(fv))] + fv \
        + [("*Faces->Edges", len(fe))] + fe + [("**EndMesh",)]


def poly3f(m):
    vf, vv, fe, fv = celled(m, 0)
    n = lambda L: [(k,) + x for k, x in enumerate(L)]
    ev = [(k, 2) + (tuple(e) if k % 2 else tuple(e)[::-1]) for k, e in enumerate(m.edges)]
    g = groups(m, m.allf)
    return [("**BeginMesh",), ("*Dimension", 3), ("*Version", 1), ("*Nodes", len(m.pts))] + [(i,) + tuple(p) for i, p in enumerate(m.pts)] \
        + [("*Edges->Nodes", len(ev))] + ev + [("*Faces->Nodes", len(fv))] + n(fv) + [("*Faces->Edges", len(fe))] + n(fe) \
        + [("*Faces->Groups", len(g))] + g + [("*Volumes->Nodes", len(vv))] + n(vv) + [("*Volumes->Faces", len(vf))] + n(vf) + [("**EndMesh",)]


# ------------------------------------------------------------------ oracle
def compare(d, m, opt, hyper=None):
    """None or what is wrong with the mesh d read from the file of m"""
    dim = len(m.pts[0])
    ok, npts, nnodes, nf, nb, nc, ns = d["n"]
    if not ok:
        return "the loader reports a failure"
    if npts != len(m.pts) or nnodes != npts:
        return "%d points and %d nodes from a file with %d points" % (npts, nnodes, len(m.pts))
    for i, (p, q) in enumerate(zip(d["pts"], m.pts)):
        if not all(alg.eq(x, y) for x, y in zip(p, q)):
            return "point %d is read as %s instead of %s" % (i, str(p)[:60], [str(x) for x in q])
    if nf != len(m.allf) or nb != nf:
        return "%d faces with %d boundary descriptors, the file describes %d faces" % (nf, nb, len(m.allf))
    if nc != len(m.cells):
        return "%d cells, the file describes %d" % (nc, len(m.cells))
    if ns != nc:
        return "%d subdomain descriptors for %d cells" % (ns, nc)
    cnt = m.boundary()
    bnd = {frozenset(f): i for f, i in m.bnd}
    seen = {}
    for i, r in enumerate(d["fcs"]):
        if r[0] != i:
            return "face %d is not found at its place (%d): the faces are not sorted" % (i, r[0])
        f = frozenset(r[4:])
        if f not in cnt or len(r[4:]) != len(f):
            return "face %d has the points %s, there is no such face in the file" % (i, r[4:])
        if f in seen:
            return "the face with the points %s appears twice" % sorted(f)
        seen[f] = i
        b, ident, internal = r[1:4]
        if hyper is not None:
            if bool(b) != (cnt[f] == 1):
                return "the face with the points %s belongs to %d cells and is%s marked as boundary" % (sorted(f), cnt[f], "" if b else " not")
            if b and ident != hyper(f):
                return "the boundary face with the points %s gets the number %d instead of %s" % (sorted(f), ident, hyper(f))
            continue
        if f in bnd:
            inner = cnt[f] == 2
            if (bool(b), bool(internal)) != (True, inner) or ident != bnd[f]:
                return "the face with the points %s is listed under boundary %d: boundary %s, number %d, internal %s" % (sorted(f), bnd[f], bool(b), ident, bool(internal))
        elif b or internal:
            return "the face with the points %s is not listed as a boundary and is marked as one" % sorted(f)
    want = {frozenset(c): (c, fs, k) for c, fs, k in zip(m.cells, m.faces, m.dom)}
    got = set()
    for i, r in enumerate(d["cls"]):
        if r[0] != i:
            return "cell %d is not found at its place (%d): the cells are not sorted" % (i, r[0])
        n = r[2]
        fs, pts = r[3:3 + n], r[3 + n:]
        if frozenset(pts) not in want or frozenset(pts) in got or len(set(pts)) != len(pts):
            return "cell %d has the points %s, there is no such cell in the file" % (i, pts)
        got.add(frozenset(pts))
        c, cf, k = want[frozenset(pts)]
        if opt.get("ordered") and tuple(pts) != tuple(c):
            return "the points of cell %s come in the order %s" % (c, pts)
        if sorted(fs) != sorted(seen[frozenset(f)] for f in cf):
            return "cell %s has the faces %s, expected %s" % (c, sorted(fs), sorted(seen[frozenset(f)] for f in cf))
        if r[1] != (k if opt.get("domains") else 0):
            return "cell %s is in the subdomain %d, the file says %d" % (c, r[1], k)
    if dim == 3 and m.edges:
        E = {tuple(sorted(e)) for e in m.edges}
        G = [tuple(sorted(e)) for e in d["eds"]]
        if opt.get("edges", True) and (set(G) != E or len(G) != len(E)):
            return "the edges are %s instead of %s" % (str(sorted(set(G) - E))[:60] or "fewer", str(sorted(E - set(G)))[:60])
    return None


def plane(m, number, dim):
    """number of a boundary face of the unit box, by the plane it lies in"""
    def f(s):
        for k in range(dim):
            for v in (0, 1):
                if all(m.pts[i][k] == v for i in s):
                    return number[2 * k + v]
        return None
    return f


R5 = (4, 2, 0, 3, 1)
H2 = (3, 1, 0, 2)
H3 = (2, 5, 1, 4, 0, 3)
P11 = (7, 2, 9, 0, 5, 10, 1, 8, 3, 6, 4)
P12 = (11, 0, 5, 7, 2, 9, 1, 8, 3, 6, 4, 10)
CASES = {
    "netgen2/star": lambda: ("netgen2", netgen, tri(), {}, None),
    "netgen2/renumbered": lambda: ("netgen2", netgen, tri(R5), {}, None),
    "netgen3/two": lambda: ("netgen3", netgen, tets([(0, 1, 2, 3), (1, 2, 3, 4)], 5), {"domains": True}, None),
    "netgen3/interface": lambda: ("netgen3", netgen, tets([(1, 2, 3, 4), (3, 0, 2, 1)], 5, R5, True), {"domains": True}, None),
    "netgen3/cube": lambda: ("netgen3", netgen, tets(CUBE6[::-1], 8), {"domains": True}, None),
    "quad/2x2": lambda: ("quad", cartesian, quads(2, 2), {"ordered": True}, None),
    "quad/3x1": lambda: ("quad", cartesian, quads(3, 1), {"ordered": True}, None),
    "hex/2x1x1": lambda: ("hex", cartesian, hexes(2, 1, 1), {"ordered": True}, None),
    "hex/1x2x2": lambda: ("hex", cartesian, hexes(1, 2, 2), {"ordered": True}, None),
    "fvca5/unit": lambda: ("fvca5", fvca5, polys("unit"), {"ordered": True}, "2"),
    "fvca5/renumbered": lambda: ("fvca5", fvca5, polys("unit", P11), {"ordered": True}, "2"),
    "fvca5/domains": lambda: ("fvca5", lambda m: fvca5(m, True, True), polys("unit", P11, 7), {"ordered": True, "domains": True}, "2"),
    "fvca6/unit": lambda: ("fvca6", fvca6, poly3("unit"), {"ordered": True}, "3"),
    "fvca6/renumbered": lambda: ("fvca6", fvca6, poly3("unit", P12), {"ordered": True}, "3"),
    "fvca6/skew": lambda: ("fvca6", fvca6, poly3("skew", P12), {"ordered": True}, "0"),
    "medit2/polygons": lambda: ("medit2", medit2, polys(), {"ordered": True, "domains": True}, None),
    "medit2/renumbered": lambda: ("medit2", medit2, polys(None, P11, 3), {"ordered": True, "domains": True}, None),
    "medit3/prisms": lambda: ("medit3", medit3, poly3(), {"ordered": True}, None),
    "medit3/renumbered": lambda: ("medit3", medit3, poly3(None, P12), {"ordered": True}, None),
    "poly2/polygons": lambda: ("poly2", poly2, polys(), {"ordered": True}, None),
    "poly2/renumbered": lambda: ("poly2", poly2, polys(None, P11), {"ordered": True}, None),
    "poly3/prisms": lambda: ("poly3", poly3f, poly3(), {"ordered": True}, None),
    "poly3/renumbered": lambda: ("poly3", poly3f, poly3(None, P12), {"ordered": True}, None),
}
ALL = ("netgen2", "netgen3", "quad", "hex", "fvca5", "fvca6", "poly2", "poly3", "medit2", "medit3")


def one(tu, job):
    kind = job[0]
    if kind == "load":
        which, fmt, m, opt, hyp = CASES[job[1]]()
        try:
            d = dump(load(tu, "load_" + which, fmt(m)))
        except Thrown as ex:
            return False, "reading the mesh or asking for its faces, cells and their descriptors throws: %s" % str(ex)[:80]
        hyper = None
        if hyp == "0":
            hyper = lambda f: 0
        elif hyp:
            hyper = plane(m, H2 if hyp == "2" else H3, int(hyp))
        bad = compare(d, m, opt, hyper)
        return bad is None, bad or "%d cells" % len(m.cells)
    if kind == "missing":
        try:
            r = vg.tobool(load(tu, "only_" + job[1], None))
        except Thrown:
            return True, "an exception"
        except vg.OutOfBounds as ex:
            return False, str(ex)
        return r is alg.FALSE, "a file that cannot be opened is reported as loaded"
    if kind == "uniform":
        n = job[1]
        a, h = alg.var("a"), alg.var("len")
        if n is None:
            d = dump(call0(tu, "uniform_def"))
            n, want = 8, [Fr(i, 8) for i in range(9)]
        else:
            want = [alg.add(a, alg.mul(Fr(i, n), h)) for i in range(n + 1)]
            alg.POSITIVE.update(i for m in h.n for i, _ in m)
            d = dump(load(tu, "uniform", None, a, alg.add(a, h), n))
        m = Mesh([(x,) for x in want], [(i, i + 1) for i in range(n)], [[(i,), (i + 1,)] for i in range(n)], [((0,), 0), ((n,), 0)])
        bad = compare(d, m, {"ordered": True})
        return bad is None, bad or "%d cells" % n
    if kind == "trunc":
        which, fmt, m, opt, hyp = CASES[job[1]]()
        L = fmt(m)
        # FVCA5 files have no end mark: one that ends between two blocks is a file with fewer blocks
        toks = [(i, j) for i, l in enumerate(L) for j in range(len(l)) if which != "fvca5" or j or not isinstance(l[0], str)]
        i, j = toks[len(toks) * job[2] // job[3]]
        cut = L[:i] + ([L[i][:j]] if j else [])
        try:
            r = vg.tobool(load(tu, "only_" + which, cut))
        except Thrown:
            return True, "an exception"
        except vg.OutOfBounds as ex:
            return False, "a file that ends after line %d: %s" % (i + 1, str(ex)[:100])
        return r is alg.FALSE, "a file that ends after line %d is reported as loaded" % (i + 1)
    raise Und(kind)


def call0(tu, fn):
    I = interp(tu, {})
    return I.call_fn(tu.fns(fn)[0], [])


def jobs(tier):
    J = [("load/" + c, ("load", c)) for c in CASES]
    J += [("missing/" + w, ("missing", w)) for w in ALL]
    J += [("uniform/%s" % (n or "default"), ("uniform", n)) for n in (None, 1, 2, 5)]
    K = 24 if tier == "thorough" else 8
    for c in ("fvca5/unit", "fvca6/unit", "medit2/polygons", "medit3/prisms", "poly2/polygons", "poly3/prisms"):
        J += [("truncated/%s/%d" % (c, k), ("trunc", c, k, K)) for k in range(K)]
    return J


CLS = {"netgen2": "netgen_mesh_loader", "netgen3": "netgen_mesh_loader", "quad": "cartesian_mesh_loader", "hex": "cartesian_mesh_loader",
       "fvca5": "fvca5_mesh_loader", "fvca6": "fvca6_mesh_loader", "poly2": "poly_mesh_loader", "poly3": "poly_mesh_loader",
       "medit2": "medit_mesh_loader", "medit3": "medit_mesh_loader"}


def where(tu, job):
    w = job[1].split("/")[0] if job[0] != "uniform" else "uniform"
    cls = CLS.get(w, "uniform_mesh_loader")
    c = [f for f in tu.functions if "body" in f and cls in f["q"] and front.short(f["q"]) == ("read_mesh" if job[0] == "trunc" else "populate_mesh")]
    d = "3" if w[-1] == "3" or w in ("hex", "fvca6") else "2"
    c = [f for f in c if ", %s>" % d in f["q"]] or c
    return tu.where(c[0]) if c else cls


def main(rep):
    tu = front.export(front.PROBES + "/loaders.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where(tu, j), r, "mesh loader")
    return rep.finish(
        "value numbering of the loaders over files given as token sequences with symbolic coordinates: the resulting mesh against the one the file describes",
        ["files follow the format: indices in range, every face listed once"], analysed={"obligations": len(J), "functions": len(tu.functions)})
