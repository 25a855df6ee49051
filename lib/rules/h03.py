"""H03: masses, stiffnesses, right-hand sides and projections are the exact integrals, and every quadrature requested by an HHO
operator is strong enough for what it integrates"""
import front
from .hlib import *
from .g01 import where_of
from . import h05, h06

NF = {"t2": 3, "p2": 5, "t3": 4}


def requests(tu, job):
    kind, K, probe, args, h = job
    C = Ctx(tu, K, h)
    C.call(probe + "_" + K, [C.pts()] + args)
    bad = slack(C)
    if bad:
        return False, "%s, at %s" % (bad[0][1], bad[0][0].where), bad[0][0].where
    used = [c for c in C.M.calls if c.top is not None]
    if not used:
        return None, "no quadrature observed"
    return True, "%d quadrature calls, every requested degree covers its integrand (closest: asked %d for %d)" % (
        (len(used),) + min(((c.deg, c.top) for c in used), key=lambda t: t[0] - t[1]))


def seq(ex):
    return Seq([int(e) for e in ex])


def tensor(d, ex, q=None):
    p = {tuple(ex): Fr(1)}
    return [p] if q is None else [p if i == q else {} for i in range(d)]


def col(m):
    return [vg.num(x) for x in m.e]


def compare(got, want, what):
    if len(got) != len(want):
        return "%s has %d entries instead of %d" % (what, len(got), len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        if not alg.eq(x, y):
            return "entry %d of %s is not the exact one" % (i, what)
    return None


def exact(tu, job):
    kind, K, probe, args, top = job
    C = Ctx(tu, K, h06.hlen if top == "h" else None)
    d = C.dim
    name = probe + "_" + K

    def check(m, want, what):
        bad = slack(C)
        if bad:
            return False, "%s, at %s" % (bad[0][1], bad[0][0].where)
        e = compare(col(m), want, what)
        return (False, e) if e else None

    n = 0
    if kind in ("gram", "gramf", "stiff"):
        bas, *a = args
        if kind == "gramf":
            i, k = a
            S = Spc(C, 0, 0)
            el, fam = S.faces[i], C.basis(bas + "_" + K, [i, k])
        else:
            el, fam = C.elem(range(len(C.P))), C.basis(bas + "_" + K, a)
        if kind == "stiff":
            fam = [grad(f[0], d) for f in fam]
        G = gram(el, fam)
        r = check(C.call(name, [C.pts()] + list(a)), [x for q in G for x in q], "the matrix")
        return r or (True, "%d x %d entries are the exact integrals" % (len(G), len(G)))
    if kind in ("nlhs", "nlhsf", "nl2b"):
        S = Spc(C, 0, 0)
        if kind == "nlhsf":
            i, k, t = args
            el, A, B = S.faces[i], C.basis("nfb_" + K, [i, t]), C.basis("nb_" + K, [k])
        else:
            k, t = args
            el = C.elem(range(len(C.P)))
            A, B = C.basis("nb_" + K, [t if kind == "nlhs" else k]), C.basis("nb_" + K, [k if kind == "nlhs" else t])
        G = gram(el, A, B)
        if kind == "nl2b":
            G = solve(gram(el, A), G)
        r = check(C.call(name, [C.pts()] + list(args)), [x for q in G for x in q], "the matrix")
        return r or (True, "%d x %d entries are the exact integrals" % (len(A), len(B)))
    vec = probe[0] == "v"
    if kind in ("interp", "interpm"):
        cd, fd, rest, di = args
        fds = [fd] * NF[K]
        if kind == "interpm":
            fds[rest[0]] = rest[1]
        S = Spc(C, cd, fds, vec)
        deg = min(cd, min(fds)) + 2 * di
    else:
        k, di = args[-2], args[-1]
        el, fam = None, None
        deg = k + 2 * di
    out = 0
    for ex in mono(d, deg):
        if deg > 2 and 0 < sum(ex) < deg:
            continue
        for q in (range(d) if vec else [None]):
            g = tensor(d, ex, q)
            ql = [] if q is None else [q]
            if kind in ("interp", "interpm"):
                want = S.interp(g)
                a = [cd, fd] + list(rest) + [seq(ex)] + ql + [di]
            elif kind == "rhsf":
                i = args[0]
                S = Spc(C, 0, 0)
                fam = C.basis(("vfb_" if vec else "fb_") + K, [i, k])
                want = [integral(S.faces[i], dot(f, g)) for f in fam]
                a = [i, k, seq(ex)] + ql + [di]
            else:
                el = C.elem(range(len(C.P)))
                fam = C.basis(("nb_" if probe[0] == "n" else "vcb_" if vec else "cb_") + K, [k])
                want = [integral(el, dot(f, g)) for f in fam]
                if kind == "proj":
                    want = [x[0] for x in solve(gram(el, fam), [[x] for x in want])]
                a = [k, seq(ex)] + ql + ([] if probe[0] == "n" else [di])
            r = check(C.call(name, [C.pts()] + a), want, "the result for the monomial %s" % (tuple(ex),))
            if r:
                return r
            out += 1
    return True, "exact for %d monomials" % out


def one(tu, job):
    r = requests(tu, job) if job[0] == "req" else exact(tu, job)
    return r[:2] if r[0] is not False or job[0] != "req" else r


def jobs(tier):
    J = []
    th = tier == "thorough"
    for K in ("t2", "p2", "t3"):
        d = DIM[K]

        def add(kind, probe, args, top=None):
            J.append(("exact/%s/%s/%s" % (probe, K, "-".join(str(a) for a in args if not isinstance(a, str)).replace(" ", "")),
                      (kind, K, probe, args, top)))
        ks = range(4 if d == 2 else 3) if th else (0, 1, 2)
        for k in ks:
            add("gram", "mass", ["cb", k])
            add("gramf", "massf", ["fb", NF[K] - 1, k])
            add("stiff", "stiff", ["cb", k])
            add("rhs", "rhs", [k, 0])
            add("rhsf", "rhsf", [1, k, 0])
            add("proj", "proj", [k, 0])
            add("proj", "projb", [k, 0])
            if k:
                add("nlhs", "nlhs", [k, k - 1])
                add("nlhs", "nlhs", [k - 1, k])
                add("nlhsf", "nlhsf", [1, k, k - 1])
                add("nl2b", "nl2b", [k, k - 1])
                add("nl2b", "nl2b", [k - 1, k])
            add("rhs", "nrhs", [k, 0])
            add("proj", "nl2", [k, 0])
        for k in (0, 1, 2) if th or d == 2 else (0, 1):
            add("gram", "vmass", ["vcb", k])
            add("gramf", "vmassf", ["vfb", 1, k])
            add("rhs", "vrhs", [k, 0])
            add("rhsf", "vrhsf", [NF[K] - 1, k, 0])
            add("proj", "vproj", [k, 0])
            add("proj", "vprojb", [k, 0])
            add("gram", "mmass", ["mb", k])
            add("gram", "smmass", ["smb", k])
            if k and K != "p2":
                add("gram", "rtmass", ["rtb", k])
        add("rhs", "rhs", [1, 1])
        add("rhsf", "rhsf", [0, 1, 1])
        add("proj", "proj", [1, 1])
        add("proj", "vproj", [1, 1])
        for cd, fd in ((1, 0), (2, 1), (1, 2)) if d == 2 else ((1, 1), (1, 0)):
            add("interp", "projh", [cd, fd, (), 0])
            add("interp", "vprojh", [cd, fd, (), 0])
        add("interp", "projh", [0, 1, (), 1])
        for i0, d0 in ((1, 0), (NF[K] - 1, 2)) if d == 2 or th else ((1, 0),):
            add("interpm", "projm", [1, 1, (i0, d0), 0])
            add("interpm", "vprojm", [1, 1, (i0, d0), 0])
    for oid, j in h05.jobs(tier):
        K, probe, kind, cd, fd, rd, gd, args, fds, h = j
        J.append(("request/" + oid, ("req", K, probe, args, h)))
    for oid, j in h06.jobs(tier):
        K, probe, cd, fd, args, fds, hF = j
        J.append(("request/" + oid, ("req", K, probe, args, h06.hlen)))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/hho.cpp")
    J = jobs(rep.tier)
    order = sorted(range(len(J)), key=lambda i: -(9 if J[i][1][1] == "t3" else 1) * sum(a for a in J[i][1][3] if isinstance(a, int)))
    res = [None] * len(J)
    for i, r in zip(order, pmap(lambda i: one(tu, J[i][1]), order)):
        res[i] = r
    for (oid, j), r in zip(J, res):
        where = where_of(tu, j[2] + "_" + j[1])
        if r[0] == "val" and len(r[1]) > 2:
            where, r = r[1][2], ("val", r[1][:2])
        if j[0] == "req" and r[0] in ("def", "thr"):
            rep.und(oid, where, str(r[1:])[:200])      # H05 and H06 report these
            continue
        collect(rep, oid, where, r, j[2])
    return rep.finish(
        "(1) mass and stiffness matrices, right-hand sides, L2 projections and hybrid interpolates are interpreted in the domain of "
        "integrals and must equal exact integrals of the basis functions, with data of every degree the request is documented for; (2) in "
        "every operator analysed by H05 and H06, the degree of each integrate() request is at least the degree of every integrand "
        "accumulated with it",
        ["exact real arithmetic", "integrate() is exact up to the requested degree (Q03)", "one cell per shape"],
        analysed={"operators": sorted({j[2] for _, j in J}), "functions": len(tu.functions)})
