"""B02: gradients, symmetric gradients, divergences and curls are the derivatives of the basis functions"""
import front, alg, vg
from .sym import *
from . import blib as b
from . import geo
from .g01 import where_of
from .b01 import xs, CELLS, name, NAMES

DIM = dict(CELLS, ve2=2, ve3=3, vr2=2, vr3=3, h20=2, h21=2, h22=2, h23=2, h30=3, h31=3, h32=3, h33=3, nf3=3, nc1s=1)
TITLE = {"ve": "vector monomial basis", "vr": "Raviart-Thomas vector basis", "h2": "harmonic-enriched basis", "h3": "harmonic-enriched basis"}


def title(k):
    if k[:2] in TITLE:
        return "%s in %dD" % (TITLE[k[:2]], DIM[k])
    return "%s in %dD" % (NAMES.get(k[:2], k), DIM[k])


MISSING = "the gradients of the harmonic functions are taken in the scaled coordinates 2*(x-bar)/diameter, without the factor 2/diameter"


def setup(k, flip=False):
    d = DIM[k]
    pos = []
    if k.startswith("nc1"):
        u, h = alg.var("u"), alg.var("hh")
        P = [(u,), (alg.add(u, h) if not flip else alg.sub(u, h),)]
        pts = vg.Seq([cpt(list(p)) for p in P])
        g = b.symbolic(1)
        g.bar = [alg.div(alg.add(P[0][0], P[1][0]), 2)]
        pos = [h]
        g.h = h
    else:
        pts = b.pts_of(d, k.startswith("le"))
        g = b.symbolic(d)
        pos = list(g.box) + [g.h]
        if k in ("nf3",):
            g = b.concrete(3)
            pos = []
    return d, pts, g, pos


def call(tu, q, pts, deg, x, g, pos):
    f = tu.fns(q)
    if not f:
        raise Und("probe %s does not compile" % q)
    I = vg.Interp(tu, g.overrides())
    for p in pos:
        I.learn(alg.lt(0, p))
    return I.call_fn(f[0], [I.new(pts), deg, I.new(cpt(x))])


def fam(v):
    """list of tensors: gradient families come as a matrix (one row per function) or a vector of matrices"""
    return b.tens(v)


def one(tu, j):
    k, what, deg, flip = j
    d, pts, g, pos = setup(k, flip)
    x = xs(d)
    F = fam(call(tu, k + "_fun", pts, deg, x, g, pos))
    G = fam(call(tu, k + "_" + what, pts, deg, x, g, pos))
    if len(F) != len(G):
        return False, "%d derivatives for %d functions" % (len(G), len(F))
    at = [atom_of(v) for v in x]
    D = lambda v, i: geo.posit(alg.diff(v, at[i]), pos) if not is_const(v) else 0
    unscaled = set()
    signs = {1, -1} if what in ("curls", "curls2") else {1}
    for n, (f, gr) in enumerate(zip(F, G)):
        if what == "gradients":
            if len(f) == 1:
                exp = [D(f[0], i) for i in range(d)]
            else:
                exp = [D(f[i], jj) for i in range(d) for jj in range(d)]
        elif what == "sgradients":
            exp = [alg.div(alg.add(D(f[i], jj), D(f[jj], i)), 2) for i in range(d) for jj in range(d)]
        elif what == "divergences":
            s = 0
            for i in range(d):
                s = alg.add(s, D(f[i], i))
            exp = [s]
        elif what == "curls2" and len(f) == 1:
            exp = [D(f[0], 1), alg.mul(-1, D(f[0], 0))]
        elif what == "curls" and d == 2:
            exp = [alg.sub(D(f[1], 0), D(f[0], 1))]
        elif d == 3:
            exp = [alg.sub(D(f[2], 1), D(f[1], 2)), alg.sub(D(f[0], 2), D(f[2], 0)), alg.sub(D(f[1], 0), D(f[0], 1))]
        if len(exp) != len(gr):
            return False, "derivative of function %d has %d components, expected %d" % (n, len(gr), len(exp))
        for c, (e, v) in enumerate(zip(exp, gr)):
            v = geo.posit(v, pos) if not is_const(v) else v
            ok = set()
            for s in signs:
                if alg.eq(v, alg.mul(s, e)) or close(v, alg.mul(s, e), 1e-9):
                    ok.add(s)
            if not ok and k[0] == "h" and alg.eq(geo.posit(alg.mul(v, alg.div(2, g.h)), pos), e):
                unscaled.add(n)
                continue
            if not ok:
                return False, "%s: component %d of function %d (degree %d) is %s instead of %s" % (
                    what, c, n, deg, alg.show(v)[:120], alg.show(e)[:120])
            signs = ok
    if unscaled:
        return False, MISSING + " (functions %s of degree %d)" % (sorted(unscaled), deg)
    return True, "%s of %d functions of degree %d" % (what, len(F), deg)


def leg(tu, deg):
    v = b.call
    f = tu.fns("leg_fun")[0]
    I = vg.Interp(tu)
    x = alg.var("x")
    F = b.tens(I.call_fn(f, [deg, I.new(x)]))
    I = vg.Interp(tu)
    G = b.tens(I.call_fn(tu.fns("leg_gradients")[0], [deg, I.new(x)]))
    from .b01 import clean
    for n, (p, q) in enumerate(zip(F, G)):
        e = alg.diff(clean(p[0]), atom_of(x)) if not is_const(p[0]) else 0
        if not close(clean(q[0]), e, 1e-9):
            return False, "derivative of polynomial %d is %s instead of %s" % (n, alg.show(q[0])[:100], alg.show(e)[:100])
    return len(F) == len(G), "derivatives of %d Legendre polynomials" % len(F)


def main(rep):
    tu = front.export(front.PROBES + "/bases.cpp")
    hi = 5 if rep.tier == "thorough" else 3
    J = []
    for k in list(CELLS) + ["nf3", "nc1s", "h20", "h21", "h22", "h23", "h30", "h31", "h32", "h33"]:
        for deg in range(1 if k[0] == "h" else 0, hi + 1):
            for flip in ((False, True) if k.startswith("nc1") else (False,)):
                J.append((k, "gradients", deg, flip))
    for k, ws in (("sc2", ["curls2"]), ("ve2", ["gradients", "sgradients", "curls", "divergences"]),
                  ("ve3", ["gradients", "sgradients", "curls2", "divergences"]), ("vr2", ["divergences"]), ("vr3", ["divergences"])):
        for w in ws:
            for deg in range(1 if k[:2] == "vr" else 0, (hi if k != "ve3" else min(hi, 3)) + 1):
                J.append((k, w, deg, False))
    res = pmap(lambda j: one(tu, j), J)
    for (k, w, deg, flip), r in zip(J, res):
        sfx = "/reversed" if flip else ""
        if r[0] == "val" and r[1][0] is False and r[1][1].startswith(MISSING):
            sfx = "/harmonic-part-not-rescaled"
        collect(rep, "%s/%s/%d%s" % (w, k, deg, sfx), where_of(tu, k + "_" + w), r, title(k))
    res = pmap(lambda n: leg(tu, n), list(range(11)))
    for n, r in enumerate(res):
        collect(rep, "gradients/legendre_1D/%d" % n, where_of(tu, "leg_gradients"), r, "legendre_1D")
    return rep.finish(
        "functions and derivatives are interpreted with a symbolic point and opaque symbolic element geometry (barycenter, axes, "
        "box, diameter); every derivative value must equal the formal derivative of the function value as an exact rational function",
        ["exact real arithmetic", "degrees up to %d" % hi],
        analysed={"families": sorted(DIM), "functions": len(tu.functions)})
