"""K02: behaviours on a mesh.  A Behavior delegates to the law it was built for, point by point: its quadrature points are those of
integrate(), a step at one point leaves the others alone, the material data are those that were added, incompatible laws are refused."""
from .sym import *
from .k01 import compare
from .h02 import STAR, TWO
from .g01 import where_of
import front

PROBE = "laws"
F_ = Fraction
SMALL, LOGA, FDEF = 0, 1, 2
# (deformation, law): probe of the law of one point
VALID = {(0, 0): "el", (0, 1): "lh", (0, 2): "nl", (0, 3): "hm", (2, 4): "nh", (2, 5): "cv", (1, 0): "gel", (1, 1): "glh", (1, 2): "gnl"}
NAME = {"el": "elastic", "lh": "linear hardening", "nl": "nonlinear hardening", "hm": "Hencky-Mises", "nh": "Neohookean", "cv": "Cavitation",
        "gel": "elastic in log strain", "glh": "linear hardening in log strain", "gnl": "nonlinear hardening in log strain"}
PAR = [F_(3, 2), 1, F_(1, 3), F_(1, 5), F_(1, 4)]
CURVE = [0, F_(1, 4), F_(1, 2), F_(3, 4), 3, 1]
PTS = {"t2": STAR, "t3": TWO}
N_ = {"t2": 2, "t3": 3}
NCELLS = {"t2": 4, "t3": 2}


def pts(K):
    return Seq([cpt([F_(c) for c in p]) for p in PTS[K]])


def diag_eig(m):
    """C is diagonal here: sorted eigenvalues and the permutation"""
    n = m.r
    if any(i != j and not alg.eq(m.at(i, j), 0) for i in range(n) for j in range(n)):
        raise Und("eigenvalues of a full matrix")
    o = sorted(range(n), key=lambda i: Fraction(m.at(i, i)))
    return [m.at(i, i) for i in o], [1 if o[j] == i else 0 for i in range(n) for j in range(n)]


RULE = [((F_(1, 10), F_(-1, 5), F_(1, 7)), F_(1, 4)), ((F_(-1, 3), F_(1, 9), F_(-1, 8)), F_(1, 5)), ((F_(1, 6), F_(1, 11), F_(1, 12)), F_(2, 5))]


def arbq_size(I, e):
    d = vg.num(I.ev(e["a"][0]))
    return 1 if d < 2 else len(RULE)


def arbq(I, e):
    """stands for the tables of the tetrahedron rules, which Q01 checks"""
    d, n, x, w = [I.ev(a) for a in e["a"]]
    for i in range(vg.num(n)):
        for k in range(3):
            I.wr(I.ptr_add(x, 3 * i + k).loc, RULE[i][0][k])
        I.wr(I.ptr_add(w, i).loc, RULE[i][1])
    return None


def any_log(I, e, want=None):
    """the delegation does not depend on what the logarithm is: a rational function stands for it"""
    x = vg.num(I.ev(e["a"][0]))
    return alg.div(alg.mul(2, alg.sub(x, 1)), alg.add(x, 1))


def call(tu, q, args):
    I = vg.Interp(tu, {"tetrahedron_arbq_size()": arbq_size, "tetrahedron_arbq()": arbq, "std:log": any_log})
    I.eig = diag_eig
    fs = tu.fns(q)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % q)
    r = I.rd(I.new(I.call_fn(fs[0], [I.new(x) if isinstance(x, (Seq, Mat, Obj)) else x for x in args])))
    return [vg.num(x) for x in r.e]


def strains(N, law, s):
    """a strain or deformation; diagonal for the log laws"""
    f = [F_(6, 5), F_(3, 4), F_(9, 10)] if s == 0 else [F_(7, 10), F_(4, 3), F_(8, 7)] if s == 1 else [F_(11, 10), F_(10, 11), F_(6, 7)]
    if law in ("gel", "glh", "gnl"):
        return [f[i] if i == j else 0 for i in range(N) for j in range(N)]
    if law in ("nh", "cv"):
        return [f[i] if i == j else F_(1 + s, 7 + i - j) for i in range(N) for j in range(N)]
    return [f[i] - 1 if i == j else F_(1 + s, 5 + i + j) for i in range(N) for j in range(N)]


def one(tu, job):
    return globals()["k_" + job[0]](tu, *job[1:])


def par_of(law):
    return PAR + (CURVE if law in ("nl", "gnl") else [])


def chunk(v, N):
    n = N * N + N ** 4 + 9 + 2
    return [v[i:i + n] for i in range(0, len(v), n)]


def same(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


PART = lambda N: (("stress", N * N), ("tangent", N ** 4), ("3D stress", 9), ("plastic flag", 1), ("equivalent plastic strain", 1))


def diff(a, b, N):
    o = 0
    for n, k in PART(N):
        if not same(a[o:o + k], b[o:o + k]):
            return n
        o += k
    return "number of values"


def k_steps(tu, K, d, l, tang, c, q, c2, q2):
    N, law = N_[K], VALID[d, l]
    par, typ = Seq(par_of(law)), 2
    F = strains(N, law, 0) + strains(N, law, 1)
    G = strains(N, law, 2)
    got = chunk(call(tu, "beh_" + K, [pts(K), d, l, 2, par, typ, Seq(F), c, q, tang, c2, q2, Seq(G)]), N)
    r1 = chunk(call(tu, "r_%s_%s" % (law, K), [par, typ, Seq(F), tang]), N)
    r2 = chunk(call(tu, "r_%s_%s" % (law, K), [par, typ, Seq(G + G), tang]), N)
    if same(r1[0], chunk(call(tu, "r_%s_%s" % ("el" if law != "el" else "hm", K), [par, typ, Seq(F), tang]), N)[0]):
        raise Und("the laws cannot be told apart")
    what = ("first step of a point", "step of another point", "second step of the point", "second step of the other point")
    if len(got) != 4:
        return False, "%s: %d results" % (NAME[law], len(got))
    for g, w, t in zip(got, (r1[0], r2[0], r1[1], r2[1]), what):
        if not same(g, w):
            return False, "%s in %dD, %s: the %s is not the one of the law alone" % (NAME[law], N, t, diff(g, w, N))
    return True, NAME[law]


def k_points(tu, K, d, l, deg):
    law = VALID[d, l]
    got = call(tu, "pts_" + K, [pts(K), d, l, deg])
    want = call(tu, "rpts_" + K, [pts(K), deg])
    return same(got, want), "%s: the quadrature points of degree %d are%s those of integrate()" % (NAME[law], deg, "" if same(got, want) else " not")


def k_mats(tu, K, d, l):
    law = VALID[d, l]
    v = [alg.var(x) for x in ("l", "m", "H", "K", "s")]
    par = v + [alg.var("p0"), alg.var("r0")]
    got = call(tu, "mats_" + K, [pts(K), d, l, Seq(par), 3])
    w = v + [3] + par[5:]
    return same(got, w + w + [d]), "%s: material data and deformation read back" % NAME[law]


def k_bad(tu, K, d, l):
    try:
        v = call(tu, "bad_" + K, [d, l])
    except Thrown:
        return (d, l) not in VALID, "law %d with deformation %d is refused" % (l, d)
    return (d, l) in VALID and v == [d], "law %d with deformation %d is accepted" % (l, d)


def k_none(tu, K):
    return call(tu, "none_" + K, [0]) == [0, 0], "default behaviour: small deformations, no points"


def k_proj(tu, K, d, l, c):
    N, law = N_[K], VALID[d, l]
    par = Seq(par_of(law))
    F = strains(N, law, 0)
    got = call(tu, "proj_" + K, [pts(K), d, l, 1, 0, par, 2, Seq(F), c])
    r = call(tu, "r_%s_%s" % (law, K), [par, 2, Seq(F), 0])[:N * N]
    t = [r[N * j + i] for i in range(N) for j in range(N)]
    return same(got, r) or same(got, t), "%s: L2 projection of a constant stress%s" % (NAME[law], "" if same(got, r) or same(got, t) else " is another field")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for K in ("t2", "t3"):
        n = NCELLS[K]
        for (d, l), law in VALID.items():
            for (c, q, c2, q2) in ((0, 0, n - 1, 1), (n - 1, 0, n - 1, 2), (1, 2, 0, 0)):
                for tang in ((1, 0) if deep or c == 0 else (1,)):
                    J.append(("steps/%s/%s/%d%d%d%d/%d" % (K, law, c, q, c2, q2, tang), ("steps", K, d, l, tang, c, q, c2, q2)))
            for deg in (1, 2, 4) if deep else (1, 3):
                J.append(("points/%s/%s/%d" % (K, law, deg), ("points", K, d, l, deg)))
            J.append(("material/%s/%s" % (K, law), ("mats", K, d, l)))
            for c in range(n) if deep else (0, n - 1):
                J.append(("projection/%s/%s/%d" % (K, law, c), ("proj", K, d, l, c)))
        J += [("compatible/%s/%d%d" % (K, d, l), ("bad", K, d, l)) for d in range(4) for l in range(8)]
        J.append(("default/" + K, ("none", K)))
    return J


def probe_of(j):
    return {"steps": "beh_", "points": "pts_", "mats": "mats_", "bad": "bad_", "none": "none_", "proj": "proj_"}[j[0]] + j[1]


def main(rep):
    tu = front.export(front.PROBES + "/laws.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, probe_of(j)), r, "behaviour")
    return rep.finish(
        "for every valid pair of deformation and law, two points of a small mesh are taken through two steps: each gets the stresses, tangents "
        "and internal variables of the law alone at that point, quadrature points and material data are passed on unchanged, every other pair is refused",
        ["concrete strains and material data; the law of one point is K03 and K05"],
        analysed={"functions": len(tu.functions), "laws": sorted(NAME.values())})
