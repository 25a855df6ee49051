"""H01: static condensation.  The condensed system, the stored elimination operators and the recovered cell unknowns are the exact
block elimination of the local system; a right-hand side of another size is refused."""
from fractions import Fraction as Fr
from math import comb
from . import sym
from .sym import *
from .hlib import SHAPES, DIM
from .g01 import where_of
import front

PROBE = "dofs"
NF = {"t2": 3, "t3": 4}


def pts(ps):
    return Seq([cpt([Fr(c) for c in p]) for p in ps])


def mat(v):
    if isinstance(v, Mat):
        return [[vg.num(v.e[i * v.c + k]) for k in range(v.c)] for i in range(v.r)]
    raise Und("not a matrix: %s" % type(v).__name__)


def mm(A, B):
    return [[alg.total(alg.mul(a, b) for a, b in zip(r, c)) for c in zip(*B)] for r in A] if hasattr(alg, "total") else \
        [[_dot(r, c) for c in zip(*B)] for r in A]


def _dot(r, c):
    s = 0
    for a, b in zip(r, c):
        s = alg.add(s, alg.mul(a, b))
    return s


def sub(A, B):
    return [[alg.sub(a, b) for a, b in zip(r, s)] for r, s in zip(A, B)]


def same(A, B):
    if len(A) != len(B) or any(len(r) != len(s) for r, s in zip(A, B)):
        return "has shape %dx%d, expected %dx%d" % (len(A), len(A[0]) if A else 0, len(B), len(B[0]) if B else 0)
    for i, (r, s) in enumerate(zip(A, B)):
        for k, (a, b) in enumerate(zip(r, s)):
            if not alg.eq(a, b):
                return "is wrong at (%d, %d)" % (i, k)
    return None


def M(A):
    return Mat(len(A), len(A[0]) if A else 1, [x for r in A for x in r])


def system(nt, nf, tt):
    """cell block symmetric positive definite (symbolic when small), everything else symbolic and unsymmetric"""
    n = nt + nf
    A = [[alg.var("a%d_%d" % (i, k)) for k in range(n)] for i in range(n)]
    for i in range(nt):
        for k in range(nt):
            if tt:
                A[i][k] = alg.var("t%d_%d" % (min(i, k), max(i, k)))
            else:
                A[i][k] = Fr(2 * nt + 3 * i) if i == k else Fr((i * k + i + k) % 4 - 1, 2)
    return A, [[alg.var("b%d" % i)] for i in range(n)]


def inverse(A):
    n = len(A)
    W = [list(r) + [Fr(int(i == k)) for k in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = next(r for r in range(c, n) if not alg.eq(W[r][c], 0))
        W[c], W[p] = W[p], W[c]
        v = alg.inv(W[c][c]) if hasattr(alg, "inv") else alg.div(1, W[c][c])
        W[c] = [alg.mul(v, x) for x in W[c]]
        for r in range(n):
            if r != c and not alg.eq(W[r][c], 0):
                f = W[r][c]
                W[r] = [alg.sub(x, alg.mul(f, y)) for x, y in zip(W[r], W[c])]
    return [r[n:] for r in W]


def leaves(v):
    """the matrices of a pair / tuple value, in order of their shapes"""
    if isinstance(v, Mat):
        return [v]
    if isinstance(v, Obj):
        return [x for y in v.f.values() for x in leaves(y)]
    if isinstance(v, Seq):
        return [x for y in v.e for x in leaves(y)]
    return []


def pick(ms, want, what):
    """each expected matrix occurs among the returned ones"""
    for w, name in want:
        r, c = len(w), len(w[0])
        cand = [m for m in ms if (m.r, m.c) == (r, c)]
        if not cand:
            return "%s: no %dx%d result (%s)" % (what, r, c, name)
        errs = [same(mat(m), w) for m in cand]
        if all(errs):
            return "%s: %s %s" % (what, name, errs[0])
    return None


def run(tu, q, args):
    return sym.run(tu, q, args, {"disk::scaled_inertia_axes": lambda I, e: Mat(2, 2, [1, 0, 0, 1])})


def one(tu, j):
    kind, q, pre, nt, nf, tt = j[:6]
    pre = [pts(a) if isinstance(a, tuple) else Seq(list(a)) if isinstance(a, list) else a for a in pre]
    A, b = system(nt, nf, tt)
    vem = q.startswith("vem")
    if vem:      # skeleton unknowns come first
        o = list(range(nt, nt + nf)) + list(range(nt))
        Ap, bp = [[A[i][k] for k in o] for i in o], [b[i] for i in o]
    else:
        Ap, bp = A, b
    TT, TF = [r[:nt] for r in A[:nt]], [r[nt:] for r in A[:nt]]
    FT, FF = [r[:nt] for r in A[nt:]], [r[nt:] for r in A[nt:]]
    post = [nf] if vem else [nt, nf] if q in ("impl", "dimpl") else []
    what = "%d cell and %d face unknowns" % (nt, nf)
    if kind.startswith("cond"):
        short = kind.endswith("/cell")
        fr = [[0]] * nf if short else b[nt:]
        iTT = inverse(TT)
        AL, bL = mm(iTT, TF), mm(iTT, b[:nt])
        want = [(sub(FF, mm(FT, AL)), "condensed matrix"), (sub(fr, mm(FT, bL)), "condensed right-hand side")]
        if q[:3] in ("ssm", "vsm", "vsi", "imp"):
            want += [(AL, "stored operator K_TT^-1 K_TF"), (bL, "stored vector K_TT^-1 f_T")]
        args = pre + [M(Ap), M(b[:nt] if short else bp)] + post + (list(j[6:]))
        e = pick(leaves(run(tu, q, args)[1]), want, what)
        return (False, e) if e else (True, what + (": %d blocks are the Schur complement" % len(want)))
    if kind == "refuse":
        try:
            bad = [[alg.var("b%d" % i)] for i in range(nt + nf)]
            k = j[6]
            bad = bad[:k] if k < len(bad) else bad + [[Fr(1)]] * (k - len(bad))
            run(tu, q, pre + [M(A), M(bad)] + post)
        except Thrown:
            return True, "a right-hand side of %d entries for %s is refused" % (k, what)
        return False, "a right-hand side of %d entries for %s is accepted" % (k, what)
    sF = [[alg.var("s%d" % i)] for i in range(nf)]
    iTT = inverse(TT)
    if kind == "back/m":
        AL = [[alg.var("l%d_%d" % (i, k)) for k in range(nf)] for i in range(nt)]
        want = sub(b[:nt], mm(AL, sF)) + sF
        v = run(tu, q, [M(AL), M(b[:nt]), M(sF)])[1]
    else:
        sT = mm(iTT, sub(b[:nt], mm(TF, sF)))
        want = sF + sT if vem else sT + sF
        v = run(tu, q, pre + [M(Ap), M(b[:nt] if kind == "back/cell" else bp), M(sF)] + post)[1]
    ms = leaves(v)
    e = same(mat(ms[0]), want) if len(ms) == 1 else "has %d parts" % len(ms)
    return (False, what + ": the recovered local solution " + e) if e else (True, what + ": recovered cell unknowns satisfy the cell equations")


def jobs(tier):
    th = tier == "thorough"
    J = []

    def add(oid, *j):
        J.append((oid, j))
    for nt, nf, tt in ((1, 2, True), (2, 1, True), (2, 3, True), (3, 2, False)) + (((3, 2, True), (5, 7, False)) if th else ()):
        s = "%d-%d%s" % (nt, nf, "s" if tt else "")
        for q in ("impl", "vems"):
            add("%s/%s" % (q, s), "cond/full", q, [], nt, nf, tt)
        add("impl/cell/%s" % s, "cond/cell", "impl", [], nt, nf, tt)
        for q in ("dimpl", "vemd"):
            add("%s/%s" % (q, s), "back", q, [], nt, nf, tt)
        add("dimpl/cell/%s" % s, "back/cell", "dimpl", [], nt, nf, tt)
        for q in ("ssdm", "vsdm"):
            add("%s/%s" % (q, s), "back/m", q, [], nt, nf, tt)
        for k in range(0, nt + nf + 3):
            if k not in (nt, nt + nf):
                add("refuse/%s/%d" % (s, k), "refuse", "impl", [], nt, nf, tt, k)
    for K in ("t2", "t3"):
        P, d, n = tuple(SHAPES[K]), DIM[K], NF[K]
        for cd, fd in ((0, 0), (1, 0), (0, 1), (1, 1)) + (((2, 1), (1, 2), (3, 2)) if th else ()):
            nt, nf = comb(cd + d, d), n * comb(fd + d - 1, d - 1)
            t = nt <= 2
            s = "%s/%d-%d" % (K, cd, fd)
            add("ssc/" + s, "cond/full", "ssc_" + K, [P, cd, fd], nt, nf, t)
            add("ssc/cell/" + s, "cond/cell", "ssc_" + K, [P, cd, fd], nt, nf, t)
            add("ssm/" + s, "cond/full", "ssm_" + K, [P, cd, fd], nt, nf, t)
            add("ssd/" + s, "back", "ssd_" + K, [P, cd, fd], nt, nf, t)
            if K == "t2":
                add("nsc/" + s, "cond/full", "nsc_" + K, [P, cd], nt, nf, t)
                add("nsd/" + s, "back", "nsd_" + K, [P, cd], nt, nf, t)
            add("refuse/ssc/" + s, "refuse", "ssc_" + K, [P, cd, fd], nt, nf, t, nt + nf - 1)
            if nt * d + nf * d <= (40 if th else 24):
                add("vsc/" + s, "cond/full", "vsc_" + K, [P, cd, fd], d * nt, d * nf, False)
                add("vsc/cell/" + s, "cond/cell", "vsc_" + K, [P, cd, fd], d * nt, d * nf, False)
                add("vsm/" + s, "cond/full", "vsm_" + K, [P, cd, fd], d * nt, d * nf, False)
                add("vsd/" + s, "back", "vsd_" + K, [P, cd, fd], d * nt, d * nf, False)
                add("refuse/vsc/" + s, "refuse", "vsc_" + K, [P, cd, fd], d * nt, d * nf, False, d * nt + d * nf + 1)
        for df, un in (([0, 1, 0, 0], [1, 1, 1, 0]), ([1, 0, 0, 0], [0, 1, 0, 1])):
            df, un = df[:n], un[:n]
            nf = sum(comb(a + d - 1, d - 1) * d for a, u in zip(df, un) if u)
            s = K + "/" + "".join("%d%s" % (a, "" if u else "x") for a, u in zip(df, un))
            add("vsi/" + s, "cond/full", "vsi_" + K, [P, 0, df, un], d, nf, False, True)
            add("vsi/cell/" + s, "cond/cell", "vsi_" + K, [P, 0, df, un], d, nf, False, True)
            add("vsi/nocheck/" + s, "cond/full", "vsi_" + K, [P, 0, df, un], d, nf + 2, False, False)
    return J


def main(rep):
    tu = front.export(front.PROBES + "/dofs.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, j[1]), r, "static condensation" if j[0] != "back" else "recovery of the cell unknowns")
    return rep.finish(
        "the local system is symbolic (cell block symmetric, everything else unsymmetric); the returned matrices must be, entry by entry, the "
        "Schur complement K_FF - K_FT K_TT^-1 K_TF and its right-hand side, the recovered unknowns must satisfy the cell equations, and "
        "right-hand sides of another size must end in an exception",
        ["exact real arithmetic", "a factorisation of a regular matrix succeeds"],
        analysed={"probes": sorted({j[1] for _, j in J}), "functions": len(tu.functions)})
