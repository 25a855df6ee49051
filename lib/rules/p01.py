"""P01: points form a vector space of coordinates, rationals are exact fractions with a positive denominator."""
from .sym import *
from fractions import Fraction as Fr
from math import gcd
import front

PROBE = "geom2"
SAMPLE = [(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 3), (-5, 3), (7, 4), (6, 4), (-6, 4), (9, 6), (-10, 15), (12, 1), (3, 8), (35, 21), (-28, 12)]


class Exact(vg.Interp):
    """integer quotients by the (unknown, common) divisor are exact"""

    def binop(self, op, a, b, *rest):
        if op in ("/", "/=") and isinstance(b, alg.E):
            return alg.mul(vg.num(a), alg.inv(b))
        return super().binop(op, a, b, *rest)


def call(tu, fn, args, cls=vg.Interp, ov=None):
    I = cls(tu, ov)
    I.positive = set(alg.POSITIVE)
    fs = tu.fns(fn)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % fn)
    return I.call_fn(fs[0], [a if not isinstance(a, (Obj, Seq, Mat)) else I.new(a) for a in args])


def X(n, d):
    return [alg.var("%s%d" % (n, i)) for i in range(d)]


def bad(op, got, want):
    return "%s gives %s, expected %s" % (op, str(got)[:60], str([str(w) for w in want])[:80])


def points(tu, op, d):
    a, b, s = X("a", d), X("b", d), alg.var("s")
    A, B, V = cpt(a), cpt(b), Mat(d, 1, list(b))
    f = "pt_%s%d" % (op, d)
    neg = [alg.mul(-1, x) for x in a]
    tab = {"add": ([A, B], list(map(alg.add, a, b))), "sub": ([A, B], list(map(alg.sub, a, b))), "neg": ([A], neg),
           "mul": ([A, s], [alg.mul(x, s) for x in a]), "lmul": ([A, s], [alg.mul(x, s) for x in a]),
           "div": ([A, s], [alg.mul(x, alg.inv(s)) for x in a]),
           "mid": ([A, B], [alg.mul(Fr(1, 2), alg.add(x, y)) for x, y in zip(a, b)]),
           "vec": ([A], a), "fvec": ([A], a), "fromvec": ([V], b), "addvec": ([A, V], list(map(alg.add, a, b))),
           "vecadd": ([A, V], list(map(alg.add, a, b))), "copy": ([A], a), "setall": ([A, s], [s] * d), "assign": ([A, B], b),
           "zero": ([], [0] * d), "list": (a, a), "make": (a, a), "xyz": ([A], a)}
    if op in tab:
        args, want = tab[op]
        got = vec(call(tu, f, args))
        return len(got) == d and all(alg.eq(x, y) for x, y in zip(got, want)), bad(op, got, want)
    if op == "dist":
        sq = 0
        for x, y in zip(a, b):
            sq = alg.add(sq, alg.mul(alg.sub(x, y), alg.sub(x, y)))
        got = vg.num(call(tu, f, [A, B]))
        return close(got, alg.sqrt_(sq)), bad(op, [got], ["|a - b|"])
    if op in ("set", "setat"):
        for i in range(d):
            got = vec(call(tu, f, [A, i, s]))
            if not all(alg.eq(x, s if k == i else y) for k, (x, y) in enumerate(zip(got, a))):
                return False, "writing coordinate %d gives %s" % (i, str(got)[:60])
        return True, "writes"
    if op in ("get", "getat"):
        return all(alg.eq(vg.num(call(tu, f, [A, i])), a[i]) for i in range(d)), "reading a coordinate returns another one"
    if op == "range":
        for g, ex in (("getat", [A, d]), ("setat", [A, d, s])):
            try:
                call(tu, "pt_%s%d" % (g, d), ex)
                return False, "at(%d) on a point of dimension %d is accepted" % (d, d)
            except (Thrown, vg.OutOfBounds):
                pass
        return True, "checked access"
    if op == "det":
        got = vg.num(call(tu, "pt_det", [A, B]))
        return alg.eq(got, alg.sub(alg.mul(a[0], b[1]), alg.mul(a[1], b[0]))), bad(op, [got], ["ax*by - ay*bx"])
    raise Und(op)


def frac(n, d):
    return n if d >= 0 else -n, abs(d)


def ints(v):
    return [int(vg.num(x)) for x in v.e]


BIN = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y,
       "chain": lambda x, y: ((((x + y) * y) - x) / y) * 3 / 2}
REL = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}


def rationals(tu, op, i):
    a, b = SAMPLE[i]
    x = Fr(a, b)
    if op in BIN:
        for c, d in SAMPLE:
            y = Fr(c, d)
            if op in ("div", "chain") and y == 0:
                continue
            for e in ((c, d), (-c, -d)):
                n, m = ints(call(tu, "r_" + op, [a, b, e[0], e[1]]))
                w = BIN[op](x, y)
                if m <= 0 or Fr(n, m) != w:
                    return False, "%s/%s %s %s/%s gives %d/%d, expected %s" % (a, b, op, e[0], e[1], n, m, w)
                if op in ("add", "sub") and gcd(n, m) != 1:
                    return False, "%s/%s %s %s/%s gives %d/%d, which is not reduced" % (a, b, op, e[0], e[1], n, m)
        return True, op
    if op in REL:
        for c, d in SAMPLE:
            got = call(tu, "r_" + op, [a, b, c, -d if d != 1 else d])
            if vg.tobool(got) is not (alg.TRUE if REL[op](x, Fr(c, -d if d != 1 else d)) else alg.FALSE):
                return False, "%s/%s %s %s/%s gives %s" % (a, b, op, c, -d, str(got)[:20])
        return True, op
    if op in ("muli", "divi"):
        for c in (1, -1, 2, -3, 6, 12) + ((0,) if op == "muli" else ()):
            n, m = ints(call(tu, "r_" + op, [a, b, c]))
            w = x * c if op == "muli" else x / c
            if m <= 0 or Fr(n, m) != w:
                return False, "%s/%s %s %d gives %d/%d, expected %s" % (a, b, op, c, n, m, w)
        return True, op
    if op == "unary":
        for f, w in (("neg", -x), ("abs", abs(x))) + ((("inv", 1 / x),) if x else ()):
            n, m = ints(call(tu, "r_" + f, [a, b]))
            if m <= 0 or Fr(n, m) != w:
                return False, "%s of %d/%d gives %d/%d" % (f, a, b, n, m)
        for e in ((a, b), (-a, -b), (a, -b)):
            n, m = ints(call(tu, "r_make", list(e)))
            if m <= 0 or Fr(n, m) != Fr(*e):
                return False, "rational(%d, %d) is %d/%d" % (e + (n, m))
            n, m = ints(call(tu, "r_simp", list(e)))
            if m <= 0 or Fr(n, m) != Fr(*e) or gcd(n, m) != 1:
                return False, "simplify() of %d/%d gives %d/%d" % (e + (n, m))
        if ints(call(tu, "r_int", [a])) != [a, 1]:
            return False, "rational(%d)" % a
        d = vg.num(call(tu, "r_dbl", [a, b]))
        if abs(float_of(d) - float(x)) > 1e-15 * max(1, abs(float(x))):
            return False, "double(%d/%d) = %s" % (a, b, d)
        return True, op
    if op == "gcd":
        for c, _ in SAMPLE:
            for d in (1, 2, 4, 15, 36):
                g = int(vg.num(call(tu, "r_gcd", [c, d])))
                if abs(g) != gcd(c, d):
                    return False, "gcd(%d, %d) = %d" % (c, d, g)
                if c:
                    L = int(vg.num(call(tu, "r_lcm", [c, d])))
                    if L != abs(c) * d // gcd(c, d):
                        return False, "lcm(%d, %d) = %d" % (c, d, L)
        return True, op
    raise Und(op)


def symbolic(tu, op):
    """for all numerators and all positive denominators: the value of the result, the common divisor being unknown"""
    a, b, c, d = alg.var("ra"), pvar("rb"), alg.var("rc"), pvar("rd")
    g = []

    def div(I, args, *_):
        g.append(pvar("g%d" % len(g)))
        return g[-1]
    if op in REL:
        l, r = alg.mul(a, d), alg.mul(c, b)
        got = vg.tobool(call(tu, "r_" + op, [a, b, c, d]))
        want = {"lt": alg.lt(l, r), "le": alg.le(l, r), "gt": alg.lt(r, l), "ge": alg.le(r, l)}[op]
        return got == want, "the comparison is %s" % str(got)[:100]
    v = call(tu, "r_" + op, [a, b, c, d], Exact, {"disk::gcd": div, "gcd": div})
    n, m = [vg.num(x) for x in v.e]
    l, r = alg.mul(a, alg.inv(b)), alg.mul(c, alg.inv(d))
    want = {"add": alg.add(l, r), "sub": alg.sub(l, r), "mul": alg.mul(l, r)}[op]
    return bool(g) and alg.eq(alg.mul(n, alg.inv(m)), want), "%s of two rationals is (%s)/(%s)" % (op, str(n)[:80], str(m)[:60])


def pvar(n):
    v = alg.var(n)
    alg.POSITIVE.update(i for m in v.n for i, _ in m)
    return v


def one(tu, job):
    if job[0] == "point":
        return points(tu, job[1], job[2])
    if job[0] == "sym":
        return symbolic(tu, job[1])
    return rationals(tu, job[1], job[2])


POPS = ("add", "sub", "neg", "mul", "lmul", "div", "mid", "vec", "fvec", "fromvec", "addvec", "vecadd", "copy", "setall", "assign", "zero",
        "list", "make", "xyz", "dist", "set", "setat", "get", "getat", "range")


def jobs(tier):
    J = [("point/%s/%d" % (op, d), ("point", op, d)) for op in POPS for d in (1, 2, 3)]
    J.append(("point/det/2", ("point", "det", 2)))
    J += [("rational/%s/symbolic" % op, ("sym", op)) for op in ("add", "sub", "mul", "lt", "le", "gt", "ge")]
    for op in list(BIN) + list(REL) + ["muli", "divi", "unary"]:
        J += [("rational/%s/%d" % (op, i), ("rational", op, i)) for i in range(len(SAMPLE)) if tier == "thorough" or i % 2 or op in ("div", "mul")]
    J.append(("rational/gcd", ("rational", "gcd", 0)))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/geom2.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where(tu, j), r, "arithmetic")
    return rep.finish(
        "value numbering of the arithmetic of points on symbolic coordinates and of rationals on symbolic and constant fractions",
        ["numerators and denominators do not overflow", "gcd returns a common divisor (checked on constants)"],
        analysed={"obligations": len(J), "functions": len(tu.functions)})


FN = {"add": "operator+", "addvec": "operator+", "vecadd": "operator+", "sub": "operator-", "neg": "operator-", "unary": "operator-", "mul": "operator*",
      "lmul": "operator*", "div": "operator/", "mid": "midpoint", "dist": "distance", "vec": "to_vector", "fvec": "to_vector", "fromvec": "point",
      "copy": "operator=", "assign": "operator=", "setall": "set_all", "set": "operator[]", "get": "operator[]", "setat": "at", "getat": "at", "range": "at",
      "zero": "point", "list": "point", "make": "point", "xyz": "x", "det": "det", "chain": "operator+=", "muli": "operator*=", "divi": "operator/=",
      "lt": "operator<", "le": "operator<=", "gt": "operator>", "ge": "operator>=", "gcd": "lcm"}


def where(tu, job):
    """the library function an obligation is about"""
    f = "mesh/point.hpp" if job[0] == "point" else "mesh/rational.hpp"
    c = [x for x in tu.functions if "body" in x and tu.file(x).endswith(f) and front.short(x["q"]).split("<")[0] == FN[job[1]]]
    return tu.where(c[0]) if c else f
