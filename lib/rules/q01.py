import front, alg
from .sym import *
from . import quadlib as ql


def jobs_of(tu, thorough):
    J = [(w, nv, dim, m, pub, False) for w, (nv, dim, m, pub) in ql.RULES.items()] + \
        [(w, 2, 1, m, pub, True) for w, (m, pub) in ql.SCALAR.items()]
    out = []
    for w, nv, dim, m, pub, scalar in J:
        mx = ql.maxdeg(tu, m)
        if w.startswith("q_gm") and thorough:
            mx = 16
        out += [(w, nv, dim, mx, pub, scalar, d) for d in range(mx + 1)]
    return out


def run(rep):
    tu, = front.probes("quad")
    J = jobs_of(tu, rep.tier == "thorough")
    J.sort(key=lambda j: -j[6] * (3 if j[0] in ("q_arbq", "q_deftet", "q_gm3") else 1))

    def one(j):
        w, nv, dim, mx, pub, scalar, d = j
        return ql.analyse(tu, w, nv, dim, d, scalar)
    res = pmap(one, J)
    nodes = n = 0
    for j, r in sorted(zip(J, res), key=lambda t: (t[0][0], t[0][6])):
        w, nv, dim, mx, pub, scalar, d = j
        oid = "%s/degree-%d" % (w[2:], d)
        where = ql.rule_where(tu, w)
        if r[0] != "val":
            collect(rep, oid, where, r, "%s at degree %d" % (pub, d))
            continue
        r = r[1]
        if r[0] == "throw":
            rep.bad(oid, where, "%s refuses degree %d, inside its documented range 0..%d" % (pub, d, mx))
            continue
        n += 1
        nodes += r[1]
        if r[4]:
            rep.bad(oid, where, "%s at degree %d: %s" % (pub, d, r[4]))
        elif r[2] > ql.TOL:
            rep.bad(oid, where, "%s at degree %d (%d points) does not integrate the monomial %s exactly "
                    "(relative defect %.2e)" % (pub, d, r[1], r[3], r[2]))
        else:
            rep.ok(oid, where, "%s: %d points, worst moment defect %.1e" % (pub, r[1], r[2]))
    rep.cov["rules_analysed"] = n
    rep.cov["nodes_analysed"] = nodes
    return rep.finish(
        "each rule function is interpreted abstractly for every degree of its documented range with symbolic vertices; "
        "its tables are constant-folded; the node list and weights it returns must be affine in the vertices, weights a "
        "constant times the exact measure (proved by polynomial normal form on every branch of the area formula), and all "
        "moments up to the degree must equal the exact simplex moments within %.0e" % ql.TOL,
        ["floating-point arithmetic is idealised to exact arithmetic on the literal constants",
         "documented ranges: Dunavant 20, Gauss-Legendre 39, triangle Gauss 30, tetrahedron arbq 15, Lobatto 37; "
         "Grundmann-Moeller (unbounded) is analysed for 0..12 (16 in the thorough tier)"],
        analysed={"functions": sorted({j[4] for j in J})})
