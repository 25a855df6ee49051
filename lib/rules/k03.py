"""K03: constitutive laws.  Stress, internal variables and tangent of a quadrature point satisfy the equations of the law: the stress
derives from the energy, the tangent is the derivative of the stress, plastic states are on the yield surface and follow the normal."""
from .sym import *
from .k01 import A, X, M, at, mk2, mk4, mm, tp, sc, ad, I2, trace, det, inv, dev, compare
from .g01 import where_of
import front

PROBE = "mech"
F_ = Fraction
LAWS = ("LinearElasticity", "LinearLaw", "HenckyMises", "Neohookean", "Cavitation", "LinearIsotropicAndKinematicHardening", "IsotropicHardeningVMis")
PAR = ("lam", "mu", "H", "K", "sy")
# directions with a rational equivalent strain: (strain, sqrt(3/2 dev:dev))
DIRS = {"traction": [2, 0, 0, 0, -1, 0, 0, 0, -1], "shear": [0, 1, 1, 1, 0, 1, 1, 1, 0], "mixed": [2, 2, 2, 2, -1, 1, 2, 1, -1],
        "plane": [5, 7, 0, 7, -3, 0, 0, 0, 0]}


def pars():
    vs = [alg.var(p) for p in PAR]
    for v in vs:
        alg.POSITIVE.add(atom_of(v).id)
    return vs


def sym_strain(name, N):
    m = M(name, N)
    return mk2(N, lambda i, j: at(m, N, min(i, j), max(i, j)))


def call(tu, q, args):
    I = vg.Interp(tu, None)
    fs = tu.fns(q)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % q)
    I.positive = set(alg.POSITIVE)
    return [vg.num(x) for x in I.call_fn(fs[0], [I.new(x) if isinstance(x, (Seq, Mat, Obj)) else x for x in args]).e]


class St:
    """the values a history probe returns"""

    def __init__(self, v, N):
        n2 = N * N
        p = [0]

        def take(n):
            r = v[p[0]:p[0] + n]
            p[0] += n
            return r
        self.stress, self.tan = take(n2), take(n2 * n2)
        self.tot, self.totprev, self.ee, self.ep = take(n2), take(n2), take(9), take(9)
        (self.p,), (self.plastic,) = take(1), take(1)
        self.stress2 = take(n2)
        if p[0] != len(v):
            raise Und("unexpected number of values")


def hist(tu, law, N, par, typ, strains, ops, tang=1):
    return St(call(tu, "%s_%d" % (law, N), [Seq(par), typ, Seq([x for e in strains for x in e]), Seq(list(ops)), tang]), N)


def to3(e, N, d=0):
    return mk2(3, lambda i, j: at(e, N, i, j) if i < N and j < N else (d if i == j else 0))


def cut(e, N):
    return mk2(N, lambda i, j: at(e, 3, i, j))


def hooke(par, e):
    return ad(sc(X(2, par[1]), e), sc(X(par[0], trace(e, 3)), I2(3)))


def under(lits, v):
    return [alg.assume(x, lits) for x in v]


def eqs(got, want, what, dims):
    return compare(got, want, what, dims)


def tangent(stress, tan, e, N, symmetric):
    """tan is the derivative of stress with respect to the strain e (independent entries, or symmetric)"""
    bad = None
    for k in range(N):
        for l in range(N):
            if symmetric and l < k:
                continue
            x = atom_of(at(e, N, k, l))
            for i in range(N):
                for j in range(N):
                    d = alg.diff(at(stress, N, i, j), x)
                    t = at(tan, N, i, j, k, l)
                    if symmetric and k != l:
                        t = A(t, at(tan, N, i, j, l, k))
                    if not close(d, t):
                        bad = bad or "tangent component (%d,%d,%d,%d) is %s, the derivative of the stress is %s" % (i + 1, j + 1, k + 1, l + 1, alg.show(t)[:90], alg.show(d)[:90])
            if symmetric and k != l:
                for i in range(N):
                    for j in range(N):
                        a, b = at(tan, N, i, j, k, l), at(tan, N, i, j, l, k)
                        if not close(a, b):
                            bad = bad or "tangent component (%d,%d,%d,%d) and its transpose differ" % (i + 1, j + 1, k + 1, l + 1)
    return bad


def elastic_state(s, e, e0, N, what):
    z = [0] * 9
    for got, want, n in ((s.tot, e, "total strain"), (s.totprev, e0, "total strain of the previous step"), (s.ee, to3(e, N), "elastic strain"),
                         (s.ep, z, "plastic strain"), ([s.p], [0], "equivalent plastic strain"), ([s.plastic], [0], "plastic flag"), (s.stress2, s.stress, "stress recomputed from the state")):
        ok, t = eqs(got, want, what + ": " + n, [3 if len(want) == 9 else N] * 2)
        if not ok:
            return t
    return None


def one(tu, job):
    kind = job[0]
    return globals()["k_" + kind](tu, *job[1:])


def k_elastic(tu, law, N, ops, last):
    """linear laws: stress of the last strain; the state is the last strain, whatever the history"""
    par = pars()
    es = [sym_strain("e%d" % s, N) if law != "LinearLaw" else M("e%d" % s, N) for s in range(len(ops))]
    s = hist(tu, law, N, par, 0, es, ops)
    e = es[-1]
    if law == "LinearLaw":
        want = sc(par[0], e)
    elif law in ("LinearElasticity", "IsotropicHardeningVMis"):      # without a traction curve the hardening law is elastic
        want = cut(hooke(par, to3(e, N)), N)
    else:
        d = dev(e, N)
        n2 = A(*[X(x, x) for x in d])
        r = alg.inv(alg.sqrt_(A(1, n2)))
        mu, lam = par[1], par[0]
        tm = X(mu, A(1, r))
        tl = A(lam, X(F_(1, 2), mu), X(F_(-1, 2), mu, r))
        want = ad(sc(tm, e), sc(X(tl, trace(e, N)), I2(N)))
    what = "%s in %dD" % (law, N)
    ok, t = eqs(s.stress, want, what + ": stress", [N, N])
    if not ok:
        return False, t
    upd = [k for k in range(len(ops)) if ops[k]]
    prev = es[upd[-1]] if upd else [0] * (N * N)
    t = elastic_state(s, e, prev, N, what)
    if t:
        return False, t
    if law == "HenckyMises":
        z = {atom_of(x).id: 0 for x in e if isinstance(x, alg.E)}
        c = mk4(N, lambda i, j, k, l: A(X(par[1], int(i == k and j == l) + int(i == l and j == k)), X(par[0], int(i == j and k == l))))
        ok, t = eqs(s.tan, c, what + ": tangent (elastic modulus)", [N] * 4)
        return ok, t
    b = tangent(s.stress, s.tan, e, N, law != "LinearLaw")
    return (b is None), what + ": " + (b or "stress, state and tangent")


def U_of(typ, J):
    L = alg.fn("log", J)
    L10 = alg.fn("log", 10)
    return {1: lambda: L, 2: lambda: alg.sub(J, 1), 3: lambda: alg.div(L, L10), 4: lambda: alg.sub(1, alg.inv(J)), 5: lambda: alg.sub(X(J, J), 1),
            6: lambda: None}[typ]()


def W_of(law, par, typ, F):
    lam, mu = par[0], par[1]
    J = det(F, 3)
    L = alg.fn("log", J)
    trC = A(*[X(x, x) for x in F])
    if typ == 6:
        U2 = X(F_(1, 2), A(X(J, J), -1, X(-2, L)))
    else:
        u = U_of(typ, J)
        U2 = X(u, u)
    vol = A(X(F_(1, 2), lam, U2), X(-1, mu, L))
    if law == "Neohookean":
        iso = X(F_(1, 2), mu, A(trC, -3))
    else:
        import models
        iso = X(2, mu, models._pow(3, F_(-5, 4)), models._pow(trC, F_(3, 4)))
    return A(iso, vol)


def k_hyper(tu, law, N, typ):
    par = pars()
    F = M("F", N)
    s = hist(tu, law, N, par, typ, [F], [0])
    # the stress in 3D, with F33 = 1 when the law is used in 2D
    W = W_of(law, par, typ, to3(F, N, 1))
    want = [alg.diff(W, atom_of(x)) for x in F]
    what = "%s of type %d in %dD" % (law, typ, N)
    ok, t = eqs(s.stress, want, what + ": stress against the derivative of the energy", [N, N])
    if not ok:
        return False, t
    b = tangent(s.stress, s.tan, F, N, False)
    if b:
        return False, what + ": " + b
    return True, what + ": stress and tangent"


BASES = ([F_(6, 5), F_(1, 3), F_(-1, 4), F_(1, 7), F_(3, 4), F_(2, 5), F_(1, 2), F_(-1, 5), F_(1)],
         [F_(1, 2), F_(-1), F_(1, 3), F_(1, 2), F_(2), F_(1), F_(-2, 3), F_(1, 5), F_(5, 4)])


def k_hyper3(tu, law, typ, b, k, l):
    """along the line F0 + x e_kl: derivative of the energy is P_kl, derivative of the stress is the column (k,l) of the tangent"""
    par = pars()
    x = alg.var("x")
    F = list(BASES[b])
    F[3 * k + l] = A(F[3 * k + l], x)
    s = hist(tu, law, 3, par, typ, [F], [0])
    what = "%s of type %d in 3D, F + x e_%d%d" % (law, typ, k + 1, l + 1)
    W = W_of(law, par, typ, F)
    ok, t = eqs([s.stress[3 * k + l]], [alg.diff(W, atom_of(x))], what + ": stress against the derivative of the energy", [1])
    if not ok:
        return False, t
    en = call(tu, "%s_en_3" % law, [Seq(par), typ, Seq(F)])
    ok, t = eqs(en, [W], what + ": energy", [1])
    if not ok:
        return False, t
    return eqs([at(s.tan, 3, i, j, k, l) for i in range(3) for j in range(3)], [alg.diff(y, atom_of(x)) for y in s.stress],
               what + ": column of the tangent against the derivative of the stress", [3, 3])


def k_energy(tu, law, N, typ):
    par = pars()
    F = M("F", N)
    got = call(tu, "%s_en_%d" % (law, N), [Seq(par), typ, Seq(F)])
    return eqs(got, [W_of(law, par, typ, to3(F, N, 1))], "%s of type %d in %dD: energy" % (law, typ, N), [1])


def k_hprev(tu, law, typ):
    par = pars()
    F = list(BASES[0])
    F[1] = A(F[1], alg.var("x"))
    got = call(tu, "%s_prev_3" % law, [Seq(par), typ, Seq(F)])
    s = hist(tu, law, 3, par, typ, [F], [0])
    return eqs(got, s.stress, "%s of type %d: stress of the previous state after update" % (law, typ), [3, 3])


def k_hstate(tu, law, N):
    par = pars()
    Fs = [M("F", N), M("G", N)] if N == 2 else [ad(b, sc(alg.var("xy"[i]), I2(3))) for i, b in enumerate(BASES)]
    s = hist(tu, law, N, par, 2, Fs, [1, 0])
    r = hist(tu, law, N, par, 2, [Fs[1]], [0])
    for a, b, n in ((s.stress, r.stress, "stress"), (s.tan, r.tan, "tangent"), (s.tot, Fs[1], "total strain"), (s.totprev, Fs[0], "previous total strain"), (s.stress2, s.stress, "stress recomputed")):
        ok, t = eqs(a, b, "%s in %dD after a first step: %s" % (law, N, n), [N] * (4 if len(b) > 9 else 2))
        if not ok:
            return False, t
    return True, "%s in %dD: history independent" % (law, N)


def k_hbad(tu, law, N, typ, neg):
    """inverted element or unknown type is refused"""
    par = [1, 1, 0, 0, 1]
    F = I2(N)
    if neg:
        F[0] = neg
    try:
        hist(tu, law, N, par, typ, [F], [0])
    except Thrown:
        return True, "refused"
    return False, "%s in %dD accepts %s" % (law, N, "an inverted deformation" if neg else "type %d" % typ)


def pstate(law, par, steps, N, curve=None):
    """closed form of the first (radial, concrete direction) step: (ep, p) after strains t*dir"""


def hard(law, par):
    """(yield radius as a function of p, kinematic modulus, isotropic modulus)"""
    lam, mu, H, K, sy = par[:5]
    if law.startswith("LinearIso"):
        return (lambda p: A(sy, X(H, p))), K, H
    p0, r0, p1, r1 = par[5:9]
    h = alg.div(alg.sub(r1, r0), alg.sub(p1, p0))
    return (lambda p: A(r0, X(h, alg.sub(p, p0)))), 0, h


def k_plastic(tu, law, N, first, tang, upd):
    """first: None (virgin material) or a direction of a first plastic step; the last step is arbitrary"""
    par = pars()
    if law == "IsotropicHardeningVMis":
        par = par + [0] + [alg.var(n) for n in ("r0", "p1", "r1")]
        alg.POSITIVE.add(atom_of(par[-3]).id)
    R, K, Hh = hard(law, par)
    lam, mu = par[0], par[1]
    e = sym_strain("e", N)
    strains, ops = [e], [upd]
    ep0, p0, e0 = [0] * 9, 0, [0] * (N * N)
    assumed = {}
    if first:
        t = F_(1)
        d = DIRS[first]
        e0 = cut([X(t, x) for x in d], N)
        E3 = to3(e0, N)
        strains, ops = [e0, e], [1, upd]
        # concrete moduli so that the first step is decided: mu = 1, a small yield stress
        num = {"lam": F_(3, 2), "mu": 1, "H": F_(1, 3), "K": F_(1, 5), "sy": F_(1, 2)}
        par = [num[n] for n in PAR] + ([0, F_(1, 2), 100, F_(80)] if len(par) > 5 else [])
        R, K, Hh = hard(law, par)
        lam, mu = par[0], par[1]
        de = dev(E3, 3)
        se = sc(X(2, mu), de)
        q = alg.sqrt_(X(F_(3, 2), A(*[X(x, x) for x in se])))
        if not is_const(q) or isinstance(q, alg.E):
            raise Und("direction")
        p0 = alg.div(alg.sub(q, R(0)), A(X(3, mu), Hh, X(F_(3, 2), K)))
        ep0 = sc(X(p0, F_(3, 2), alg.inv(q)), se)
    s = hist(tu, law, N, par, 0, strains, ops, tang)
    what = "%s in %dD, %s" % (law, N, "after a plastic step" if first else "virgin material")
    E3 = to3(e, N)
    tr = ad(E3, ep0, -1)
    # trial relative stress
    se = ad(sc(X(2, mu), dev(tr, 3)), sc(X(-1, K), ep0))
    q = alg.sqrt_(X(F_(3, 2), A(*[X(x, x) for x in se])))
    Phi = alg.sub(q, R(p0))
    allv = s.stress + s.tan + s.tot + s.totprev + s.ee + s.ep + [s.p, s.plastic] + s.stress2
    # strictly inside / outside of the yield surface; on the surface both are the same state
    for cond in (alg.lt(Phi, 0), alg.le(Phi, 0), None):
        if cond is None:
            raise Und("the branches of the law are not those of the yield function")
        neg = cond.op == "not"
        base = cond.args[0] if neg else cond
        if all(alg.cases(under({base: v}, allv), 4) in ([{}], []) for v in (True, False)):
            break
    seen = 0
    for el in (True, False):
        lits = {base: el != neg}
        g = lambda v: under(lits, v)
        w = what + (", elastic" if el else ", plastic")
        stress, ee, ep, (p, flag) = g(s.stress), g(s.ee), g(s.ep), g([s.p, s.plastic])
        chk = [(g(s.tot), e, "total strain"), (g(s.totprev), e if upd else e0, "total strain of the previous step"), (ad(ee, ep), E3, "elastic + plastic strain"),
               (stress, cut(hooke(par, ee), N), "stress against the elastic strain"), (g(s.stress2), stress, "stress recomputed from the state"), ([flag], [0 if el else 1], "plastic flag")]
        if el:
            chk += [(ep, ep0, "plastic strain"), ([p], [p0], "equivalent plastic strain")]
        else:
            dp = alg.sub(p, p0)
            n = sc(alg.div(F_(3, 2), q), se)
            s1 = dev(hooke(par, ee), 3)
            rel = ad(s1, sc(X(-1, K), ep))
            chk += [(ad(ep, ep0, -1), sc(dp, n), "flow along the normal to the yield surface"),
                    (sc(q, rel), sc(R(p), se), "relative stress on the yield surface")]
        for a, b, nme in chk:
            ok, t = eqs(a, b, w + ": " + nme, [3 if len(b) == 9 else N] * 2)
            if not ok:
                return False, t
        tan = g(s.tan)
        if tang:
            b = tangent(stress, tan, e, N, True)
            if b:
                return False, w + ": " + b
        else:
            c = mk4(N, lambda i, j, k, l: A(X(mu, int(i == k and j == l) + int(i == l and j == k)), X(lam, int(i == j and k == l))))
            ok, t = eqs(tan, c, w + ": elastic modulus when no tangent is asked for", [N] * 4)
            if not ok:
                return False, t
        seen += 1
    return True, what + ": both branches"


CURVE = [0, F_(1, 2), F_(1, 10), F_(7, 10), F_(3, 10), 1, 1, F_(6, 5)]


def k_curve(tu, N, scale, first, d):
    """a traction curve with several segments: the state after radial steps is on the curve"""
    lam, mu = F_(3, 2), F_(1)
    par = [lam, mu, 0, 0, 1] + CURVE
    pts = list(zip(CURVE[::2], CURVE[1::2]))

    def R(p):
        for i in range(len(pts) - 1):
            if p <= pts[i + 1][0] or i == len(pts) - 2:
                (a, ra), (b, rb) = pts[i], pts[i + 1]
                return ra + (rb - ra) / (b - a) * (p - a)
    dr = DIRS[d]
    c = F_(3) if d in ("traction", "shear") else F_(6)
    D3 = [F_(x) / c for x in dr]     # equivalent strain: q = 2 mu
    strains, ops = [], []
    ep, p = F_(0), F_(0)
    want = None
    for t in list(first if isinstance(first, tuple) else [first] if first else []) + [scale]:
        strains.append(cut([t * x for x in D3], N))
        # radial: total strain t*D, plastic strain ep*D
        sg = 1 if t >= ep else -1
        q = 2 * mu * abs(t - ep)
        tie = q == R(p)
        if q <= R(p):
            dp = F_(0)
        else:
            # find dp with q - 3 mu dp = R(p + dp)
            dp = None
            for i in range(len(pts) - 1):
                (a, ra), (b, rb) = pts[i], pts[i + 1]
                h = (rb - ra) / (b - a)
                x = (q - ra - h * (p - a)) / (3 * mu + h)
                if x >= 0 and p + x >= a and (p + x <= b or i == len(pts) - 2):
                    dp = x
                    break
        p += dp
        ep += sg * dp * F_(3, 2)      # normal = 3/2 se/q with se = q D
        ops.append(1)
    ops[-1] = 0
    s = hist(tu, "IsotropicHardeningVMis", N, par, 0, strains, ops)
    what = "traction curve in %dD, %s strain %s%s" % (N, d, scale, " after %s" % (first,) if first else "")
    E3 = to3(strains[-1], N)
    for a, b, n in (([s.p], [p], "equivalent plastic strain"), (s.ep, [ep * x for x in D3], "plastic strain"), (ad(s.ee, s.ep), E3, "elastic + plastic strain"),
                    ([s.plastic], [s.plastic if tie else int(dp > 0)], "plastic flag")):
        ok, t = eqs(a, b, what + ": " + n, [3, 3])
        if not ok:
            return False, t
    return True, what


def k_sp(tu, law, N):
    """stress of the previous state"""
    par = [F_(3, 2), 1, F_(1, 3), F_(1, 5), 10 ** 6, 0, 10 ** 6, 1, 10 ** 6 + 1]
    if law != "IsotropicHardeningVMis":
        par = par[:5]
    es = [cut([F_(x) / 7 for x in DIRS["mixed"]], N), cut([F_(x) / 5 for x in DIRS["plane"]], N)]
    got = call(tu, "%s_sp_%d" % (law, N), [Seq(par), Seq(es[0] + es[1])])
    a, b = hooke(par, to3(es[0], N)), hooke(par, to3(es[1], N))
    return eqs(got, cut(a, N) + a + b, "%s in %dD: stresses of the previous and of the current state" % (law, N), [len(got)])


def k_mat(tu):
    E, nu, ET, K = [alg.var(x) for x in ("E", "nu", "ET", "K")]
    got = call(tu, "matpar", [E, nu, ET, K])
    lam = alg.div(X(E, nu), X(A(1, nu), A(1, X(-2, nu))))
    mu = alg.div(E, X(2, A(1, nu)))
    H = alg.sub(alg.div(X(E, ET), alg.sub(E, ET)), X(F_(3, 2), K))
    return eqs(got, [lam, mu, E, nu, ET, H, K, E, 3], "material parameters (lambda, mu, E, nu, ET, H, K, sigma_y0, type) read back", [9])


def k_matset(tu):
    l, mu, H = pars()[:3]
    got = call(tu, "matset", [l, mu, H])
    E = alg.div(X(mu, A(X(3, l), X(2, mu))), A(l, mu))
    return eqs(got, [l, mu, H, 0, E, alg.div(l, X(2, A(l, mu)))], "material parameters (lambda, mu, H, K, E, nu) read back", [6])


def k_rp(tu, pts, bad):
    flat = [F_(x) for p in pts for x in p]
    try:
        got = call(tu, "curve", [Seq(flat)])
    except Thrown:
        return bad, "traction curve with a repeated p is refused" if bad else "a valid traction curve is refused"
    if bad:
        return False, "a traction curve with two values for one p is accepted"
    return eqs(got, [F_(x) for p in sorted(pts) for x in p], "sorted traction curve", [len(got)])


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for N in (2, 3):
        for law in ("LinearElasticity", "LinearLaw", "HenckyMises", "IsotropicHardeningVMis"):
            for ops in ((0,), (1, 0), (0, 0), (1, 0, 1), (1, 1)):
                J.append(("elastic/%s/%dd/%s" % (law, N, "".join(map(str, ops))), ("elastic", law, N, ops, None)))
        for law in ("Neohookean", "Cavitation"):
            for typ in range(1, 7):
                if N == 2:
                    J.append(("stress/%s/2d/%d" % (law, typ), ("hyper", law, N, typ)))
                    J.append(("energy/%s/2d/%d" % (law, typ), ("energy", law, N, typ)))
                    continue
                for b in range(2 if deep else 1):
                    for k in range(3):
                        for l in range(3):
                            J.append(("stress/%s/3d/%d/%d/%d%d" % (law, typ, b, k, l), ("hyper3", law, typ, b, k, l)))
            J.append(("history/%s/%dd" % (law, N), ("hstate", law, N)))
            for typ in (0, 7):
                J.append(("type/%s/%dd/%d" % (law, N, typ), ("hbad", law, N, typ, 0)))
            for neg in (-1, F_(-1, 100)):
                J.append(("inverted/%s/%dd/%s" % (law, N, float(neg)), ("hbad", law, N, 1, neg)))
        for law in ("LinearIsotropicAndKinematicHardening", "IsotropicHardeningVMis"):
            for tang in (1, 0):
                for upd in (0, 1):
                    for first in (None,) + (("traction", "shear", "mixed") if N == 3 else ("plane",)):
                        J.append(("plastic/%s/%dd/%s/%d%d" % (law, N, first or "virgin", tang, upd), ("plastic", law, N, first, tang, upd)))
        for law in ("LinearElasticity", "LinearIsotropicAndKinematicHardening", "IsotropicHardeningVMis"):
            J.append(("previous/%s/%dd" % (law, N), ("sp", law, N)))
    for law in ("Neohookean", "Cavitation"):
        for typ in (1, 2, 5):
            J.append(("previous/%s/%d" % (law, typ), ("hprev", law, typ)))
    for d in ("traction", "shear", "mixed"):
        for sc_ in (F_(1, 5), F_(1, 4), F_(3, 10), F_(1, 2), F_(3, 4), 1, 2, 5):
            for first in (None, F_(2, 5), 1):
                J.append(("curve/%s/%s/%s" % (d, sc_, first), ("curve", 3, sc_, first, d)))
        # close to the yield surface after flow into each of the segments
        for first in ((F_(2, 5),), (1,), (3,), (8,), (1, 3), (F_(2, 5), 1, 3), (3, 2)):
            for e in (F_(1, 1000), F_(-1, 1000), F_(1, 10), F_(1, 2), F_(5, 2)):
                J.append(("curve/%s/%s+%s" % (d, "-".join(map(str, first)), e), ("curve", 3, max(first) + e, first, d)))
    J += [("material/young", ("mat",)), ("material/lame", ("matset",))]
    J += [("material/curve/%d" % i, ("rp", p, b)) for i, (p, b) in enumerate([([(0, 1), (1, 2), (3, 5)], False), ([(3, 5), (0, 1), (1, 2)], False),
                                                                             ([(0, 1), (1, 2), (1, 3)], True), ([(1, 2), (0, 0), (1, 4), (2, 5)], True), ([(2, 1)], False), ([], False)])]
    return J


def probe_of(j):
    k = j[0]
    if k in ("elastic", "hyper", "hstate", "hbad", "plastic"):
        return "%s_%d" % (j[1], j[2])
    return {"energy": lambda: "%s_en_%d" % (j[1], j[2]), "hyper3": lambda: j[1] + "_3", "hprev": lambda: j[1] + "_prev_3", "curve": lambda: "IsotropicHardeningVMis_3",
            "sp": lambda: "%s_sp_%d" % (j[1], j[2]), "mat": lambda: "matpar", "matset": lambda: "matset", "rp": lambda: "curve"}[k]()


def main(rep):
    tu = front.export(front.PROBES + "/mech.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, probe_of(j)), r, "constitutive law")
    return rep.finish(
        "the laws are interpreted on symbolic strains, deformations and material parameters, over histories of computations and updates; "
        "stresses must be the derivative of the documented energy (hyperelastic laws) or Hooke's law of the elastic strain, tangents the "
        "derivative of the stress, and on both sides of the yield condition the state must satisfy additivity, normality and consistency",
        ["exact real arithmetic; after a first plastic step the material parameters are fixed rationals",
         "multi-segment traction curves only on radial histories"],
        analysed={"laws": list(LAWS), "probes": sorted({probe_of(j) for _, j in J}), "functions": len(tu.functions)})
