"""K01: tensor algebra and kinematic/stress conversions.  Every operation on matrices and fourth-order tensors is the formula of
tensor calculus it stands for, for all arguments; conversions to and from vectors are inverse of each other."""
from .sym import *
from .g01 import where_of
import front

PROBE = "mech"
R2 = None


def A(*xs):
    r = 0
    for x in xs:
        r = alg.add(r, x)
    return r


def X(*xs):
    r = 1
    for x in xs:
        r = alg.mul(r, x)
    return r


def M(name, N):
    return [alg.var("%s%d%d" % (name, i, j)) for i in range(N) for j in range(N)]


def T4(name, N):
    return [alg.var("%s%d%d%d%d" % (name, i, j, k, l)) for i in range(N) for j in range(N) for k in range(N) for l in range(N)]


def at(t, N, *ix):
    p = 0
    for i in ix:
        p = p * N + i
    return t[p]


def mk2(N, f):
    return [f(i, j) for i in range(N) for j in range(N)]


def mk4(N, f):
    return [f(i, j, k, l) for i in range(N) for j in range(N) for k in range(N) for l in range(N)]


def mm(a, b, N):
    return mk2(N, lambda i, j: A(*[X(at(a, N, i, k), at(b, N, k, j)) for k in range(N)]))


def tp(a, N):
    return mk2(N, lambda i, j: at(a, N, j, i))


def sc(c, a):
    return [X(c, x) for x in a]


def ad(a, b, s=1):
    return [A(x, X(s, y)) for x, y in zip(a, b)]


def I2(N):
    return mk2(N, lambda i, j: int(i == j))


def trace(a, N):
    return A(*[at(a, N, i, i) for i in range(N)])


def eps(a, b, c):
    return (a - b) * (b - c) * (c - a) // 2


def det(a, N):
    if N == 2:
        return alg.sub(X(a[0], a[3]), X(a[1], a[2]))
    return A(*[X(eps(i, j, k), a[i], a[3 + j], a[6 + k]) for i in range(3) for j in range(3) for k in range(3) if eps(i, j, k)])


def inv(a, N):
    """adjugate / determinant, by differentiating the determinant"""
    d = det(a, N)
    if N == 2:
        c = [a[3], alg.mul(-1, a[1]), alg.mul(-1, a[2]), a[0]]
    else:
        c = mk2(3, lambda j, i: A(*[X(eps(i, m, p), eps(j, n, q), Fraction(1, 2), a[3 * m + n], a[3 * p + q])
                                    for m in range(3) for n in range(3) for p in range(3) for q in range(3) if eps(i, m, p) * eps(j, n, q)]))
    return [alg.div(x, d) for x in c]


def dev(a, N):
    return ad(a, sc(alg.div(trace(a, N), N), I2(N)), -1)


H = Fraction(1, 2)
# name -> (kinds of arguments, result); m matrix, t tensor, v vector, D deviator wrapper handled by the probe
SPEC = {
    "store": ("t", lambda N, a: [at(a, N, r // N, c // N, r % N, c % N) for r in range(N * N) for c in range(N * N)]),
    "tm": ("tm", lambda N, a, b: mk2(N, lambda i, j: A(*[X(at(a, N, i, j, k, l), at(b, N, k, l)) for k in range(N) for l in range(N)]))),
    "mt": ("tm", lambda N, a, b: mk2(N, lambda i, j: A(*[X(at(a, N, k, l, i, j), at(b, N, k, l)) for k in range(N) for l in range(N)]))),
    "tt": ("tt", lambda N, a, b: mk4(N, lambda i, j, k, l: A(*[X(at(a, N, i, j, p, q), at(b, N, p, q, k, l)) for p in range(N) for q in range(N)]))),
    "kron": ("mm", lambda N, a, b: mk4(N, lambda i, j, k, l: X(at(a, N, i, j), at(b, N, k, l)))),
    "vkron": ("vv", lambda N, a, b: mk2(N, lambda i, j: X(a[i], b[j]))),
    "inner": ("mm", lambda N, a, b: [A(*[X(x, y) for x, y in zip(a, b)])]),
    "vinner": ("vv", lambda N, a, b: [A(*[X(x, y) for x, y in zip(a, b)])]),
    "sup": ("mm", lambda N, a, b: mk4(N, lambda i, j, k, l: X(at(a, N, i, k), at(b, N, j, l)))),
    "inf": ("mm", lambda N, a, b: mk4(N, lambda i, j, k, l: X(at(a, N, i, l), at(b, N, j, k)))),
    "odot": ("mm", lambda N, a, b: mk4(N, lambda i, j, k, l: X(H, A(X(at(a, N, i, k), at(b, N, j, l)), X(at(a, N, i, l), at(b, N, j, k)))))),
    "id4": ("", lambda N: mk4(N, lambda i, j, k, l: int(i == k and j == l))),
    "ids": ("", lambda N: mk4(N, lambda i, j, k, l: X(H, int(i == k and j == l) + int(i == l and j == k)))),
    "ixi": ("", lambda N: mk4(N, lambda i, j, k, l: int(i == j and k == l))),
    "tr": ("t", lambda N, a: mk4(N, lambda i, j, k, l: at(a, N, k, l, i, j))),
    "dev": ("m", lambda N, a: dev(a, N)),
    "sph": ("m", lambda N, a: sc(alg.div(trace(a, N), N), I2(N))),
    "fro": ("m", lambda N, a: [alg.div(x, alg.sqrt_(A(*[X(y, y) for y in dev(a, N)]))) for x in dev(a, N)]),
    "jac1": ("m", lambda N, a: [alg.diff(det(a, N), atom_of(x)) for x in a]),
    "jac2": ("m", lambda N, a: mk4(N, lambda i, j, k, l: alg.diff(alg.diff(det(a, N), atom_of(at(a, N, i, j))), atom_of(at(a, N, k, l))))),
    "to3": ("m", lambda N, a: mk2(3, lambda i, j: at(a, N, i, j) if i < N and j < N else 0)),
    "to3one": ("m", lambda N, a: mk2(3, lambda i, j: at(a, N, i, j) if i < N and j < N else int(i == j))),
    "from3": ("M", lambda N, a: mk2(N, lambda i, j: at(a, 3, i, j))),
    "tfrom3": ("T", lambda N, a: mk4(N, lambda i, j, k, l: at(a, 3, i, j, k, l))),
    "lin": ("m", lambda N, a: sc(H, ad(a, tp(a, N)))),
    "g2f": ("m", lambda N, a: ad(a, I2(N))),
    "f2g": ("m", lambda N, a: ad(a, I2(N), -1)),
    "f2c": ("m", lambda N, a: mm(tp(a, N), a, N)),
    "g2c": ("m", lambda N, a: mm(tp(ad(a, I2(N)), N), ad(a, I2(N)), N)),
    "f2b": ("m", lambda N, a: mm(a, tp(a, N), N)),
    "g2b": ("m", lambda N, a: mm(ad(a, I2(N)), tp(ad(a, I2(N)), N), N)),
    "c2e": ("m", lambda N, a: sc(H, ad(a, I2(N), -1))),
    "f2e": ("m", lambda N, a: sc(H, ad(mm(tp(a, N), a, N), I2(N), -1))),
    "g2e": ("m", lambda N, a: sc(H, A3(ad(a, tp(a, N)), mm(tp(a, N), a, N)))),
    "p1p2": ("mm", lambda N, p, f: mm(inv(f, N), p, N)),
    "p2p1": ("mm", lambda N, s, f: mm(f, s, N)),
    "p1c": ("mm", lambda N, p, f: [alg.div(x, det(f, N)) for x in mm(p, tp(f, N), N)]),
    "cp1": ("mm", lambda N, c, f: sc(det(f, N), mm(c, tp(inv(f, N), N), N))),
    "cp2": ("mm", lambda N, c, f: sc(det(f, N), mm(mm(inv(f, N), c, N), tp(inv(f, N), N), N))),
    "p2c": ("mm", lambda N, s, f: [alg.div(x, det(f, N)) for x in mm(mm(f, s, N), tp(f, N), N)]),
    "vm": ("m", lambda N, a: [alg.sqrt_(X(Fraction(3, 2), A(*[X(x, x) for x in dev(a, N)])))]),
}
SPEC["cp"], SPEC["pc"] = SPEC["tm"], SPEC["mt"]
WHAT = {"store": "storage of A_ijkl", "tm": "A:B", "mt": "B:A", "cp": "ContractedProduct(A, B)", "pc": "ContractedProduct(B, A)",
        "tt": "ContractedProduct of two tensors", "fro": "derivative of the norm of the deviator", "jac1": "first derivative of the determinant",
        "jac2": "second derivative of the determinant", "lin": "linearized strain"}


def A3(a, b):
    return ad(a, b)


def arg(kind, N, name):
    if kind == "m":
        return M(name, N)
    if kind == "M":
        return M(name, 3)
    if kind == "t":
        return T4(name, N)
    if kind == "T":
        return T4(name, 3)
    return [alg.var("%s%d" % (name, i)) for i in range(N)]


def call(tu, q, args):
    v = vec_of(run(tu, q, args)[1])
    return v


def vec_of(v):
    return [vg.num(x) for x in v.e]


def compare(got, want, what, dims):
    if len(got) != len(want):
        return False, "%s: %d components, expected %d" % (what, len(got), len(want))
    bad = [k for k in range(len(want)) if not close(got[k], want[k])]
    if bad:
        k = bad[0]
        ix, kk = [], k
        for d in reversed(dims):
            ix.append(kk % d)
            kk //= d
        return False, "%s: component (%s) is %s, expected %s%s" % (what, ",".join(str(i + 1) for i in reversed(ix)), alg.show(got[k])[:110], alg.show(want[k])[:110],
                                                                  "" if len(bad) == 1 else " (and %d others)" % (len(bad) - 1))
    return True, what


SYM6 = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
SYM4 = SYM6[:4]
FUL9 = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]
FUL5 = FUL9[:5]
LAYOUT = {4: SYM4, 5: FUL5, 6: SYM6, 9: FUL9}


def symmat(name):
    m = M(name, 3)
    return mk2(3, lambda i, j: at(m, 3, min(i, j), max(i, j)))


def one(tu, job):
    kind = job[0]
    if kind == "alg":
        _, n, N = job
        kinds, f = SPEC[n]
        args = [arg(k, N, "ab"[i]) for i, k in enumerate(kinds)]
        want = f(N, *args)
        got = call(tu, "%s_%d" % (n, N), [Seq(a) for a in args])
        size = 3 if n in ("to3", "to3one") else N
        dims = [size] * {N: 1, N * N: 2, 9: 2, N ** 4: 4}.get(len(want), 1) if n != "store" else [N * N] * 2
        return compare(got, want, "%s in %dD" % (WHAT.get(n, n), N), dims)
    if kind == "get":
        _, N = job
        a = T4("a", N)
        for i, ix in enumerate(itertools.product(range(N), repeat=4)):
            got = call(tu, "get_%d" % N, [Seq(a)] + list(ix))
            if not alg.eq(got[0], a[i]):
                return False, "coefficient %s read back is %s, stored %s" % (ix, alg.show(got[0]), alg.show(a[i]))
        return True, "coefficients read back"
    if kind == "range":
        _, N, pos = job
        ix = [0] * 4
        ix[pos[0]] = N if pos[1] else -1
        try:
            run(tu, "get_%d" % N, [Seq(T4("a", N))] + ix)
        except Thrown:
            return True, "coefficient out of range refused"
        return False, "coefficient %s of a %dD tensor is not refused" % (ix, N)
    if kind == "tm1":
        _, N, r, c = job
        a, b = T4("a", N), M("b", N)
        got = call(tu, "tm1_%d" % N, [Seq(a), Seq(b), r, c])
        return compare(got, mk2(N, lambda i, j: X(at(a, N, i, j, r, c), at(b, N, r, c))), "product with a matrix with the single entry (%d,%d)" % (r, c), [N, N])
    if kind == "mandel":
        _, N = job
        a = T4("a", N)
        got = call(tu, "mandel_%d" % N, [Seq(a)])
        r2 = alg.sqrt_(2)

        def w(p, q):
            (i, j), (k, l) = SYM6[p], SYM6[q]
            if max(i, j, k, l) >= N:
                return 0
            return X(at(a, N, i, j, k, l), r2 if p > 2 else 1, r2 if q > 2 else 1)
        return compare(got, [w(p, q) for p in range(6) for q in range(6)], "Mandel matrix of a %dD tensor" % N, [6, 6])
    if kind == "tomgis":
        n = job[1]
        a = M("a", 3)
        got = call(tu, "tomgis", [Seq(a), n])
        want = [X(at(a, 3, i, j), alg.sqrt_(2) if i != j and n in (4, 6) else 1) for i, j in LAYOUT[n]]
        return compare(got, want, "the %d components passed to Mgis" % n, [n])
    if kind == "mgis":
        n = job[1]
        a = symmat("a") if n in (4, 6) else M("a", 3)
        a = [x if (i, j) in LAYOUT[n] or (j, i) in LAYOUT[n] else 0 for x, (i, j) in zip(a, itertools.product(range(3), repeat=2))]
        v = run(tu, "tomgis", [Seq(a), n])[1]
        got = call(tu, "frommgis", [v])
        return compare(got, a, "matrix converted to the %d components of Mgis and back" % n, [3, 3])
    if kind == "tmgis":
        n = job[1]
        L = LAYOUT[n]
        s = n in (4, 6)
        v = [alg.var("v%d_%d" % (p, q)) for p in range(n) for q in range(n)]
        got = call(tu, "tfrommgis", [Seq(v)])
        r2 = alg.sqrt_(2)

        def pos(i, j):
            if (i, j) in L:
                return L.index((i, j))
            return L.index((j, i)) if s and (j, i) in L else None

        def w(i, j, k, l):
            p, q = pos(i, j), pos(k, l)
            if p is None or q is None:
                return 0
            return alg.div(v[p * n + q], X(r2 if s and i != j else 1, r2 if s and k != l else 1))
        return compare(got, mk4(3, w), "tensor read from the %d components of Mgis" % (n * n), [3] * 4)
    if kind == "bad":
        try:
            run(tu, job[1], job[2])
        except Thrown:
            return True, "wrong size refused"
        return False, "%s accepts a vector of a wrong size" % job[1]
    if kind == "ctoa":
        c = T4("c", 3)
        # the symmetries of a tangent modulus: minor and major
        def cs(i, j, k, l):
            p, q = sorted([tuple(sorted((i, j))), tuple(sorted((k, l)))])
            return at(c, 3, *(p + q))
        c = mk4(3, cs)
        s, f = symmat("s"), M("f", 3)
        got = call(tu, "ctoa", [Seq(c), Seq(s), Seq(f)])
        want = mk4(3, lambda i, j, k, l: A(X(int(i == k), at(s, 3, j, l)),
                                          *[X(at(f, 3, i, m), at(f, 3, k, n), at(c, 3, m, j, n, l)) for m in range(3) for n in range(3)]))
        return compare(got, want, "derivative of F S(C(F)) with respect to F", [3] * 4)
    raise Und(kind)


def jobs(tier):
    J = []
    for n, (kinds, _) in sorted(SPEC.items()):
        for N in (2, 3):
            J.append(("%s/%dd" % (n, N), ("alg", n, N)))
    for N in (2, 3):
        J.append(("get/%dd" % N, ("get", N)))
        J.append(("mandel/%dd" % N, ("mandel", N)))
        for p in range(4):
            for up in (0, 1):
                J.append(("range/%dd/%d%s" % (N, p, "+" if up else "-"), ("range", N, (p, up))))
        for r in range(N):
            for c in range(N):
                J.append(("tm1/%dd/%d%d" % (N, r, c), ("tm1", N, r, c)))
    for n in (4, 5, 6, 9):
        J += [("to-mgis/%d" % n, ("tomgis", n)), ("mgis/%d" % n, ("mgis", n)), ("tensor-from-mgis/%d" % (n * n), ("tmgis", n))]
    for n in (0, 3, 7, 10):
        J += [("size/to/%d" % n, ("bad", "tomgis", [Seq(M("a", 3)), n])), ("size/from/%d" % n, ("bad", "frommgis", [Seq([0] * n)])),
              ("size/tensor/%d" % (n * n), ("bad", "tfrommgis", [Seq([0] * (n * n))]))]
    J.append(("ctoa", ("ctoa",)))
    return J


def probe_of(j):
    k = j[0]
    return {"alg": lambda: "%s_%d" % j[1:], "get": lambda: "get_%d" % j[1], "range": lambda: "get_%d" % j[1], "tm1": lambda: "tm1_%d" % j[1],
            "mandel": lambda: "mandel_%d" % j[1], "tomgis": lambda: "tomgis", "mgis": lambda: "frommgis", "tmgis": lambda: "tfrommgis",
            "bad": lambda: j[1], "ctoa": lambda: "ctoa"}[k]()


def main(rep):
    tu = front.export(front.PROBES + "/mech.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, probe_of(j)), r, "tensor calculus")
    return rep.finish(
        "each function of the mechanics module on matrices and fourth-order tensors is interpreted on arguments with independent symbolic "
        "entries; every component of the result must be, identically, the one given by the index formula of the operation (for derivatives of "
        "the determinant: the derivative of its expansion); vectors exchanged with Mgis must follow one ordering and scaling in both directions",
        ["exact real arithmetic; sqrt(2) algebraic"],
        analysed={"probes": sorted({probe_of(j) for _, j in J}), "functions": len(tu.functions)})
