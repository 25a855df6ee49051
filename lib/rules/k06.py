"""K06: the element level of the mechanics.  The internal force is the work of the stress in the test strains, the rigidity is that of
the tangent, the residual is the external minus the internal force, inertia is Newmark's, and the adaptive stabilisation is the mean
ratio of stress and strain kept within its bounds and only taken over by an update."""
from .k02 import *
from .k02 import F_

PROBE = "newton"

# (deformation, law, degrees (cell, face, gradient))
CASES = {"t2": [((0, 0), (1, 1, 1)), ((0, 0), (2, 1, 1)), ((0, 1), (1, 0, 1)), ((0, 3), (1, 1, 0)), ((2, 4), (1, 1, 1)), ((2, 5), (1, 0, 0)), ((2, 4), (0, 1, 1))],
         "t3": [((0, 0), (1, 0, 1)), ((0, 3), (1, 1, 0)), ((2, 4), (1, 0, 0)), ((0, 2), (0, 0, 0))]}
DEEP = {"t2": [((0, 2), (1, 1, 1)), ((0, 3), (2, 1, 1)), ((2, 5), (1, 1, 1)), ((0, 0), (2, 2, 2))],
        "t3": [((0, 1), (1, 0, 1)), ((2, 4), (1, 0, 1)), ((2, 5), (1, 0, 0))]}
FACES = {"t2": 3, "t3": 4}


# the time spent is not part of the results
CLOCK = {("ctor", "timecounter"): lambda I, e, t: Obj("timecounter", {}), "timecounter::tic": lambda I, e: None, "timecounter::toc": lambda I, e: 0,
         "timecounter::elapsed": lambda I, e: 0}


def call(tu, q, args):
    I = vg.Interp(tu, dict(CLOCK, **{"tetrahedron_arbq_size()": arbq_size, "tetrahedron_arbq()": arbq, "std:log": any_log}))
    fs = tu.fns(q)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % q)
    r = I.rd(I.new(I.call_fn(fs[0], [I.new(x) if isinstance(x, (Seq, Mat, Obj)) else x for x in args])))
    return [vg.num(x) for x in r.e]


def bn(d, k):
    return [0, k + 1, (k + 1) * (k + 2) // 2, (k + 1) * (k + 2) * (k + 3) // 6][d]


def sizes(K, def_, deg):
    N = N_[K]
    g = bn(N, deg[2]) * (N * (N + 1) // 2 if def_ == SMALL else N * N)
    c = N * bn(N, deg[0])
    return g, c, c + FACES[K] * N * bn(N - 1, deg[1])


def mk_R(g, n):
    return Mat(g, n, [F_((3 * i + 5 * j + i * j + 2) % 7 - 3, 4) for i in range(g) for j in range(n)])


def mk_u(n, s=1):
    return Mat(n, 1, [F_(s * ((7 * j + 3) % 5 - 2) + 1, 60) for j in range(n)])


def mv(A, x):
    return [alg_sum(alg.mul(A.at(i, j), x[j]) for j in range(A.c)) for i in range(A.r)]


def alg_sum(it):
    r = 0
    for x in it:
        r = alg.add(r, x)
    return r


LOAD = lambda N: [F_(2 + k, 3) for k in range(N)] + [F_(1 + 2 * k + 3 * j, 5) for k in range(N) for j in range(N)]


def points_of(tu, K, d, l, deg, par, c, Ru):
    """per quadrature point: weight, test strains, strain, stress, tangent"""
    N = N_[K]
    v = call(tu, "at_" + K, [pts(K), d, l, deg[2], Seq(par), c, Mat(len(Ru), 1, Ru)])
    n, o, P = int(v[0]), 1, []
    for _ in range(n):
        w, ng = v[o], int(v[o + 1])
        o += 2
        g = [v[o + N * N * i:o + N * N * (i + 1)] for i in range(ng)]
        o += N * N * ng
        E, s = v[o:o + N * N], v[o + N * N:o + 2 * N * N]
        o += 2 * N * N
        P.append((w, g, E, s, v[o:o + N ** 4]))
        o += N ** 4
    if o != len(v) or not P:
        raise Und("%d values for %d points" % (len(v), n))
    return P


def dot(a, b):
    return alg_sum(alg.mul(x, y) for x, y in zip(a, b))


def compute(tu, K, d, l, deg, par, c, o, f, t, u, a):
    g, nc, n = sizes(K, d, deg)
    v = call(tu, "comp_" + K, [pts(K), d, l, deg[1], deg[0], deg[2], Seq(par), c, Seq(o), Seq(f), t[0], t[1], mk_R(g, n), u, a])
    if v[:4] != [n, n, n, n]:
        return "sizes %s, expected %d" % ([int(x) for x in v[:4]], n), None, None, None, None
    v = v[4:]
    m = NCELLS[K]
    return None, v[:n * n], v[n * n:n * n + n], v[n * n + n:n * n + 2 * n], (v[n * n + 2 * n:][:m], v[n * n + 2 * n + m:])


def k_static(tu, K, d, l, deg, c):
    N = N_[K]
    g, nc, n = sizes(K, d, deg)
    R, u, par = mk_R(g, n), mk_u(n), par_of(VALID[d, l])
    f = LOAD(N)
    bad, Kg, Fi, Rt, _ = compute(tu, K, d, l, deg, par, c, [1, 0, 0, 1, 1, 1], f, (0, 1), u, Mat(0, 1, []))
    if bad:
        return False, bad
    P = points_of(tu, K, d, l, deg, par, c, mv(R, u.e))
    aT, AT = [0] * g, [[0] * g for _ in range(g)]
    for w, gs, E, s, C in P:
        if len(gs) != g:
            return False, "%d test strains, expected %d" % (len(gs), g)
        sw = [alg.mul(w, x) for x in s]
        Cg = [[alg.mul(w, dot(C[N * N * r:N * N * (r + 1)], x)) for r in range(N * N)] for x in gs]
        for i in range(g):
            aT[i] = alg.add(aT[i], dot(sw, gs[i]))
            for j in range(g):
                AT[i][j] = alg.add(AT[i][j], dot(gs[i], Cg[j]))
    if all(close(x, 0) for x in aT):
        raise Und("no stress at all")
    wantF = [dot([R.at(i, k) for i in range(g)], aT) for k in range(n)]
    if not same(Fi, wantF):
        return False, "%s in %dD: internal force %s" % (NAME[VALID[d, l]], N, [i for i in range(n) if not close(Fi[i], wantF[i])][:4])
    X = [[dot(AT[i], [R.at(j, k) for j in range(g)]) for k in range(n)] for i in range(g)]
    for k in range(n):
        for m in range(n):
            if not close(Kg[k * n + m], dot([R.at(i, k) for i in range(g)], [X[i][m] for i in range(g)])):
                return False, "%s in %dD: the rigidity (%d, %d) is not that of the tangent" % (NAME[VALID[d, l]], N, k, m)
    ext = call(tu, "ext_" + K, [pts(K), deg[0], c, Seq(f)])[:nc] + [0] * (n - nc)
    if not same([alg.add(x, y) for x, y in zip(Rt, wantF)], ext):
        return False, "%s in %dD: the residual plus the internal force is not the external force" % (NAME[VALID[d, l]], N)
    return True, "%s in %dD: forces and rigidity over %d points" % (NAME[VALID[d, l]], N, len(P))


def k_dynamic(tu, K, d, l, deg, c):
    """what dynamics adds to the static element, with symbolic density, Newmark parameter, times and predictor"""
    N = N_[K]
    g, nc, n = sizes(K, d, deg)
    par, f = par_of(VALID[d, l]), LOAD(N)
    beta, rho, t0, h = (alg.var(x) for x in ("beta", "rho", "t0", "h"))
    u, a = mk_u(n), Mat(nc, 1, [alg.var("a%d" % i) for i in range(nc)])
    b0, K0, F0, R0, _ = compute(tu, K, d, l, deg, par, c, [1, 0, 0, 1, 1, 1], f, (0, 1), u, Mat(0, 1, []))
    b1, K1, F1, R1, _ = compute(tu, K, d, l, deg, par, c, [1, 0, 1, beta, rho, 1], f, (t0, alg.add(t0, h)), u, a)
    if b0 or b1:
        return False, b0 or b1
    M = call(tu, "ext_" + K, [pts(K), deg[0], c, Seq(f)])[nc:]
    den = alg.mul(beta, alg.mul(h, h))
    gap = lambda x, y, w: pclose(alg.mul(den, alg.sub(x, y)), w, 1e-11)
    for i in range(n):
        for j in range(n):
            w = alg.mul(rho, M[i * nc + j]) if i < nc and j < nc else 0
            if not gap(K1[i * n + j], K0[i * n + j], w):
                return False, "inertia in %dD: rigidity (%d, %d) grows by something else than rho/(beta dt^2) times the mass" % (N, i, j)
        w = alg.mul(rho, dot(M[i * nc:(i + 1) * nc], u.e[:nc])) if i < nc else 0
        if not gap(F1[i], F0[i], w):
            return False, "inertia in %dD: internal force %d" % (N, i)
        p = alg.mul(alg.mul(den, rho), dot(M[i * nc:(i + 1) * nc], a.e)) if i < nc else 0
        if not gap(R1[i], R0[i], alg.sub(p, w)):
            return False, "inertia in %dD: residual %d" % (N, i)
    return True, "inertia in %dD" % N


def k_adapt(tu, K, d, l, deg, c, beta, on, zero):
    """the coefficient for the next step is the mean of |dev stress| / |dev strain|, kept within [beta/10000, 1000 beta]"""
    N = N_[K]
    g, nc, n = sizes(K, d, deg)
    par = par_of(VALID[d, l])
    u = Mat(n, 1, [0] * n) if zero else mk_u(n)
    old = F_(17, 4)
    bad, _, _, _, (now, nxt) = compute(tu, K, d, l, deg, par, c, [beta, on, 0, 1, 1, old], LOAD(N), (0, 1), u, Mat(0, 1, []))
    if bad:
        return False, bad
    want = old
    if on:
        P = points_of(tu, K, d, l, deg, par, c, mv(mk_R(g, n), u.e))
        s, W = 0, 0
        for w, gs, E, S, C in P:
            S, E = ([float_(x) for x in S], [float_(x) for x in E])
            if d != SMALL:
                Fm = [E[i * N:(i + 1) * N] for i in range(N)]
                S = solve_f(Fm, [S[i * N:(i + 1) * N] for i in range(N)])
                E = [(sum(Fm[k][i] * Fm[k][j] for k in range(N)) - (i == j)) / 2 for i in range(N) for j in range(N)]
            ns, ne = devn(S, N), devn(E, N)
            s += float_(w) * (float(beta) if ne < 1e-13 else ns / ne)
            W += float_(w)
        want = min(1000 * float(beta), max(float(beta) / 10000, s / W))
    for i, (x, y) in enumerate(zip(now, nxt)):
        if not close(x, old):
            return False, "%dD: the coefficient of cell %d changes before the update" % (N, i)
        w = want if i == c else old
        if abs(float_(y) - float(w)) > 1e-9 * abs(float(w)):
            return False, "%s in %dD: coefficient of cell %d is %.6g, expected %.6g" % (NAME[VALID[d, l]], N, i, float_(y), float(w))
    return True, "%s in %dD: coefficient %.5g" % (NAME[VALID[d, l]], N, float(want))


def float_(x):
    return float(x) if is_const(x) else float(alg.numeric(x))


def devn(m, N):
    t = sum(m[i * N + i] for i in range(N)) / N
    return sum((m[i * N + j] - (t if i == j else 0)) ** 2 for i in range(N) for j in range(N)) ** 0.5


def solve_f(A, B):
    """A^-1 B, flattened"""
    n = len(A)
    M = [list(map(float, A[i])) + list(map(float, B[i])) for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i:
                M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [x for r in M for x in r[n:]]


def k_manager(tu, K, c, seq):
    v, a, b = (alg.var(x) for x in "vab")
    n, code = NCELLS[K], sum(x * 4 ** i for i, x in enumerate(seq))
    got = call(tu, "sm_" + K, [pts(K), v, c, a, b, code])
    now, new = [v] * n, [v] * n
    want = list(now)
    for s in seq:
        if s == 1:
            now[c] = a
        elif s == 2:
            new[c] = b
        else:
            now = list(new)
        want += now
    return same(got, want), "coefficients of the cells through %s" % ", ".join(("", "set", "set next", "update")[s] for s in seq)


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for K in ("t2", "t3"):
        n = NCELLS[K]
        for (d, l), deg in CASES[K] + (DEEP[K] if deep else []):
            for c in range(n) if deep else (n - 1,) if K == "t3" else (0, n - 1):
                J.append(("element/%s/%s/%d%d%d/%d" % ((K, VALID[d, l]) + deg + (c,)), ("static", K, d, l, deg, c)))
        for (d, l), deg in [((0, 0), (1, 0, 0)), ((2, 4), (1, 0, 0))] + ([((0, 0), (0, 0, 0))] if deep and K == "t2" else []):
            J.append(("inertia/%s/%s/%d%d%d" % ((K, VALID[d, l]) + deg), ("dynamic", K, d, l, deg, n - 1)))
        for (d, l), deg in [((0, 0), (1, 0, 1)), ((2, 4), (1, 0, 1 if K == "t2" else 0))]:
            for c in range(n) if deep else (n - 1,):
                for beta, on, zero in ((2, 1, 0), (2, 0, 0), (F_(1, 10 ** 5), 1, 0), (10 ** 6, 1, 0), (3, 1, 1)):
                    J.append(("stabilisation/%s/%s/%s%d%d/%d" % (K, VALID[d, l], str(beta).replace("/", ":"), on, zero, c), ("adapt", K, d, l, deg, c, beta, on, zero)))
        for c in range(n):
            for seq in ((1,), (2, 3), (2, 1, 3), (1, 2, 3, 3), (2, 3, 1), (2, 3, 2, 1, 3), (1, 3)):
                J.append(("manager/%s/%d/%s" % (K, c, "".join(map(str, seq))), ("manager", K, c, seq)))
    return J


def one(tu, job):
    return globals()["k_" + job[0]](tu, *job[1:])


def main(rep):
    tu = front.export(front.PROBES + "/newton.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, ("sm_" if j[0] == "manager" else "comp_") + j[1]), r, "element of the mechanics")
    return rep.finish(
        "for every cell, degree and law listed: F = sum of weight * stress : test strain, K = that of the tangent, residual = external force - F, "
        "dynamics adds rho M / (beta dt^2) and rho M a, the next stabilisation coefficient is the clamped mean of |dev stress| / |dev strain| and "
        "is only in force after the update",
        ["the gradient reconstruction and the displacement are concrete and arbitrary; density, Newmark parameter, times and predictor are symbolic; no contact; laws are K03"],
        analysed={"functions": len(tu.functions), "elements": len(J)})
