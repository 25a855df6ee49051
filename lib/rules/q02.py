import front, alg
from .sym import *
from .sym import run as interp
from . import quadlib as ql

EXTRA = (1, 2, 3, 4, 7, 20, 100, 1000)


def run(rep):
    tu, = front.probes("quad")
    J = []
    for w, (nv, dim, m, pub) in ql.RULES.items():
        if w.startswith("q_gm"):
            continue
        mx = ql.maxdeg(tu, m)
        J += [(w, nv, dim, mx + x, pub, False) for x in EXTRA]
    for w, (m, pub) in ql.SCALAR.items():
        mx = ql.maxdeg(tu, m)
        J += [(w, 2, 1, mx + x, pub, True) for x in EXTRA]
    for w, nv, dim, pub in (("q_tens2", 4, 2, "tensorized_gauss_legendre (quadrangle)"),
                            ("q_tens3f", 4, 3, "tensorized_gauss_legendre (3D face)"),
                            ("q_tens3", 8, 3, "tensorized_gauss_legendre (hexahedron)")):
        J += [(w, nv, dim, ql.maxdeg(tu, "qmax_gauss") + x, pub, None) for x in EXTRA]

    def one(j):
        w, nv, dim, d, pub, sc = j
        if sc is None:
            if w == "q_tens3":
                args = [d, Seq([mkpt("p%d" % i, 3) for i in range(8)])]
            else:
                args = [d] + [mkpt("p%d" % i, dim) for i in range(nv)]
            try:
                I, r = interp(tu, w, args)
            except Thrown as t:
                return ("throw", t.where)
            return ("rule", len(r.e), 1.0 if not r.e else 0.0, (), "the rule has no points" if not r.e else "result")
        return ql.analyse(tu, w, nv, dim, d, sc)
    res = pmap(one, J)
    for j, r in zip(J, res):
        w, nv, dim, d, pub, sc = j
        oid = "%s/degree-%d" % (w[2:], d)
        where = ql.rule_where(tu, w)
        if r[0] != "val":
            collect(rep, oid, where, r, "%s at degree %d, above its range" % (pub, d))
            continue
        r = r[1]
        if r[0] == "throw":
            rep.ok(oid, where, "refused by an exception in %s" % (r[1],))
        elif r[1] == 0:
            rep.bad(oid, where, "%s silently returns an empty rule for degree %d, so every integral is zero" % (pub, d))
        elif sc is None:
            rep.bad(oid, where, "%s silently answers degree %d, above its tables, with %d points" % (pub, d, r[1]))
        elif r[4] or r[2] > ql.TOL:
            rep.bad(oid, where, "%s silently answers degree %d with a rule that is too weak (%d points, %s)"
                    % (pub, d, r[1], r[4] or "defect %.1e" % r[2]))
        else:
            rep.ok(oid, where, "%d points, still exact" % r[1])
    return rep.finish(
        "each rule function is interpreted for degrees above its tables (max+1..max+4, +7, +20, +100, +1000) with "
        "symbolic vertices: it must end in an exception, or return a rule that is exact for the degree; an empty list, a "
        "too weak rule and a table access out of bounds are violations",
        ["beyond the tables 2D triangle_gauss switches to an eigenvalue-based construction, which is left undecided",
         "Grundmann-Moeller has no upper limit and is not part of this rule"],
        analysed={"functions": sorted({j[4] for j in J})})

