"""D01: discontinuous Galerkin assembly puts every local block where the cells sit and accumulates it"""
import front
from .sym import *
from .g01 import where_of
from .h02 import STAR

PROBE = "fem"
PTS = Seq([cpt(p) for p in STAR])
ALL = [(i, j) for i in range(4) for j in range(4)]
# (pairs, cells): every pair once, repeated and transposed pairs, every cell once and twice, nothing at all
CASES = {"all": (ALL, range(4)), "none": ([], []), "pairs": ([(0, 1), (1, 0), (0, 1), (3, 2)], []), "cells": ([], [2, 0, 2, 3, 1]),
         "mixed": ([(2, 3), (1, 1)], [1, 3, 1])}


def mat(n, nm): return Mat(n, n, [alg.var("%s_%d_%d" % (nm, i, j)) for i in range(n) for j in range(n)])


def rows(v, n):
    if (v.r, v.c) != (n, n):
        raise vg.ShapeError("a %dx%d system where %dx%d was expected" % (v.r, v.c, n, n))
    return [[v.e[i * n + j] for j in range(n)] for i in range(n)]


def add(M, n, i, j, A):
    for a in range(n):
        for b in range(n):
            M[n * i + a][n * j + b] = alg.add(M[n * i + a][n * j + b], A.e[a * n + b])


def zero(k): return [[0] * k for _ in range(k)]


def same(M, W, what):
    for i, (r, s) in enumerate(zip(M, W)):
        for j, (x, y) in enumerate(zip(r, s)):
            if not alg.eq(x, y):
                return "%s: entry (%d, %d) is %s, the local blocks give %s" % (what, i, j, str(x)[:60], str(y)[:60])


def one(tu, job):
    kind, n, case = job
    k = 4 * n
    if kind == "twice":
        A, b = mat(n, "A"), Mat(n, 1, [alg.var("b_%d" % i) for i in range(n)])
        v = run(tu, "dg_twice", [PTS, n, A, b])[1]
        L, R, s = fields(v)
        W = zero(k)
        add(W, n, 1, 1, A)
        e = same(rows(L, k), W, "second assembly")     # the matrix is the one of the last assembly
        return (False, e) if e else (s == k, "size %s" % s)
    if kind == "etwice":
        A, B = mat(n, "A"), mat(n, "B")
        K, M, s = fields(run(tu, "dg_etwice", [PTS, n, A, B])[1])
        WK, WM = zero(k), zero(k)
        add(WK, n, 1, 0, A)
        add(WM, n, 1, 1, B)
        e = same(rows(K, k), WK, "second stiffness") or same(rows(M, k), WM, "second mass")
        return (False, e) if e else (s == k, "size %s" % s)
    pairs, cells = CASES[case]
    A = [mat(n, "A%d" % i) for i in range(len(pairs))]
    B = [mat(n, "B%d" % i) for i in range(len(cells))]
    b = [Mat(n, 1, [alg.var("b%d_%d" % (i, j)) for j in range(n)]) for i in range(len(cells))]
    P, C = Seq([Seq(list(p)) for p in pairs]), Seq(list(cells))
    WP, WC = zero(k), zero(k)
    for (i, j), a in zip(pairs, A):
        add(WP, n, i, j, a)
    for i, a in zip(cells, B):
        add(WC if kind == "eig" else WP, n, i, i, a)
    if kind == "eig":
        K, M, s = fields(run(tu, "dg_eig", [PTS, n, P, Seq(A), C, Seq(B)])[1])
        e = same(rows(K, k), WP, "stiffness") or same(rows(M, k), WC, "mass")
        return (False, e) if e else (s == k, "size %s" % s)
    L, R, s = fields(run(tu, "dg_asm", [PTS, n, P, Seq(A), C, Seq(B), Seq(b)])[1])
    W = [0] * k
    for i, a in zip(cells, b):
        for q in range(n):
            W[n * i + q] = alg.add(W[n * i + q], a.e[q])
    e = same(rows(L, k), WP, "matrix") or same([vec(R)], [W], "right-hand side")
    if len(vec(R)) != k:
        return False, "the right-hand side has %d entries" % len(vec(R))
    return (False, e) if e else (s == k, "size %s" % s)


def fields(v):
    if isinstance(v, Obj):
        return list(v.f.values())
    return list(v.e)


def jobs(tier):
    J = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6):
        J += [("%s/%s/%d" % (k, c, n), (k, n, c)) for k in ("asm", "eig") for c in CASES]
        J += [("%s/%d" % (k, n), (k, n, None)) for k in ("twice", "etwice")]
    return J


def main(rep):
    tu = front.export(front.PROBES + "/fem.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, "dg_" + j[0]), r, "discontinuous Galerkin assembly (%s)" % oid)
    return rep.finish(
        "interpretation of the assemblers with symbolic local matrices and loads: the system is the sum of the local blocks at (offset of the first cell, offset "
        "of the second), stiffness and mass of the eigenvalue problem apart; a second assembly starts from an empty matrix",
        ["local matrices have the size given to the assembler"], analysed={"obligations": len(J), "functions": len(tu.functions)})
