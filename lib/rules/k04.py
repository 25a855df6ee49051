"""K04: time stepping.  The steps partition the interval up to the end time; no step is lost or moved by rounding, whatever has been
realised or split before."""
from .sym import *
from .g01 import where_of
import front

PROBE = "mech"
F_ = Fraction


class Rounding(Exception):
    pass


def dyadic(x):
    x = Fraction(x)
    return x.denominator & (x.denominator - 1) == 0 and abs(x.numerator) < 2 ** 53


def exact(v):
    """the value without the rounding errors"""
    if not isinstance(v, alg.E):
        return v
    return alg.subst(v, lambda a, args: 0 if a.kind == "fn:rnd" else None)


class Rounded(vg.Interp):
    """every inexact floating point operation carries its own relative error: equal operations have equal errors, and a comparison whose
    outcome depends on an error is reported"""

    def binop(self, op, x, y, t):
        r = vg.Interp.binop(self, op, x, y, t) if op not in ("<", ">", "<=", ">=", "==", "!=") else None
        num_ = isinstance(x, CONST + (alg.E,)) and isinstance(y, CONST + (alg.E,))
        if r is None:
            if num_:
                d = exact(alg.sub(x, y))
                if isinstance(d, CONST) and d != 0:
                    return alg.b_const({"<": d < 0, ">": d > 0, "<=": d < 0, ">=": d > 0, "==": False, "!=": True}[op])
                if isinstance(d, CONST) and not alg.eq(x, y):
                    raise Rounding("the comparison of two equal times (%s with %s) depends on rounding errors" % (str(exact(x))[:30], str(exact(y))[:30]))
            return vg.Interp.binop(self, op, x, y, t)
        if not num_ or vg.is_int_t(t) or op not in "+-*/":
            return r
        if isinstance(r, CONST) and dyadic(r) and all(isinstance(z, CONST) and dyadic(z) for z in (x, y)):
            return r
        if op in "+-" and (alg.eq(x, 0) or alg.eq(y, 0)):
            return r
        if op == "*" and (x in (0, 1) or y in (0, 1)) or op == "/" and (y == 1 or x == 0):
            return r
        if op in "*/" and isinstance(y, CONST) and abs(Fraction(y)) in (2, 4, F_(1, 2), F_(1, 4)):
            return r
        if alg.eq(r, 0):
            return r
        a, b = (y, x) if op in "+*" and repr(x) > repr(y) else (x, y)
        return alg.add(exact(r), alg.fn("rnd", op, a, b))


def run_r(tu, q, args):
    I = Rounded(tu, None)
    fs = tu.fns(q)
    if not fs or "body" not in fs[0]:
        raise Und("probe %s does not compile against this tree" % q)
    return [vg.num(x) for x in I.call_fn(fs[0], [I.new(x) if isinstance(x, (Seq, Mat, Obj)) else x for x in args]).e]


def plan(table, fin):
    """[(start, end, level)] of the list before any operation"""
    out, last = [], F_(0)
    for t, n in table:
        a = last
        for i in range(n):
            b = a + (t - a) * F_(i + 1, n)
            if b <= fin:
                out.append((a + (t - a) * F_(i, n), b, 0))
        if out:
            last = out[-1][1]
    return out


def play(steps, ops):
    done = 0
    for o in ops:
        if o:
            a, b, l = steps[0]
            m = (a + b) / 2
            steps[0:1] = [(a, m, l + 1), (m, b, l + 1)]
        else:
            steps.pop(0)
            done += 1
    return done


def one(tu, job):
    kind, table, fin, ops = job
    if kind == 0:
        v = run_r(tu, "time0", [])
        return ([exact(x) for x in v] == [0, 0, 0, 1, 1]), "an empty list of time steps"
    ts = [F_(t) for t, _ in table]
    try:
        if kind == 1:
            v = run_r(tu, "time1", [ts[0], table[0][1], Seq(list(ops))])
        elif kind == 2:
            v = run_r(tu, "time2", [Seq(ts), Seq([n for _, n in table]), Seq(list(ops))])
        else:
            v = run_r(tu, "time3", [Seq(ts), Seq([n for _, n in table]), F_(fin), Seq(list(ops))])
    except Rounding as ex:
        return False, str(ex)
    want = plan([(F_(t), n) for t, n in table], F_(fin) if kind == 3 else ts[-1])
    ends = {b for t, b in zip(ts, ts)}
    done = play(want, ops)
    head, rest = v[:5], [v[i:i + 4] for i in range(5, len(v), 4)]
    what = "times %s, operations %s" % (", ".join("%s:%s" % (t, n) for t, n in table), "".join("RS"[o] for o in ops) or "none")
    hw = [len(want) + done, len(want), done, done + 1, int(not want)]
    if head != hw:
        return False, what + ": (steps, remaining, realised, index, empty) is %s, expected %s" % (head, hw)
    if len(rest) != len(want):
        return False, what + ": %d steps, expected %d" % (len(rest), len(want))
    for i, (g, w) in enumerate(zip(rest, want)):
        if [exact(g[0]), exact(g[1]), exact(g[2]), g[3]] != [w[0], w[1], w[1] - w[0], w[2]]:
            return False, what + ": step %d is [%s, %s] of level %s, expected [%s, %s] of level %d" % (i + 1, exact(g[0]), exact(g[1]), g[3], w[0], w[1], w[2])
        if i and not alg.eq(rest[i - 1][1], g[0]):
            return False, what + ": step %d does not begin where the previous one ends (rounding)" % (i + 1)
        if w[1] in ends and isinstance(g[1], alg.E):
            return False, what + ": the step that ends at %s does not end exactly there (rounding)" % w[1]
    return True, what


def fits(n, ops):
    for o in ops:
        if n < 1:
            return False
        n += 1 if o else -1
    return True


def jobs(tier):
    J = [("empty", (0, (), 0, ()))]
    deep = tier == "thorough"
    opss = [(), (0,), (1,), (1, 1), (1, 0), (0, 1), (1, 0, 1), (1, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0)] + ([(1, 1, 1, 0, 1, 0, 0), (0, 1, 1, 0, 0, 0, 1)] if deep else [])
    for end in ("1", "1/10", "7/3", "1000", "1/3") + (("1/1000000", "123/7") if deep else ()):
        for n in ((1, 2, 3, 5, 10, 11, 13) + ((27, 31, 47) if deep else ())):
            for ops in opss:
                if fits(n, ops):
                    J.append(("uniform/%s/%d/%s" % (end.replace("/", "|"), n, "".join(map(str, ops))), (1, ((end, n),), end, ops)))
    tabs = [(("1/10", 3), ("1", 7)), (("1", 1), ("2", 1), ("5", 3)), (("1/3", 10), ("2/3", 10), ("1", 10)), (("1/7", 2), ("3", 11))]
    for i, tab in enumerate(tabs):
        for ops in opss:
            if fits(tab[0][1], ops):
                J.append(("table/%d/%s" % (i, "".join(map(str, ops))), (2, tab, tab[-1][0], ops)))
        for fin in {tab[0][0], tab[-1][0], str(F_(tab[-1][0]) * 2), str(F_(tab[0][0]) / 2 + F_(1, 1000)), str(F_(tab[-1][0]) - F_(1, 997))}:
            J.append(("final/%d/%s" % (i, fin.replace("/", "|")), (3, tab, fin, ())))
    return J


def main(rep):
    tu = front.export(front.PROBES + "/mech.cpp")
    J = jobs(rep.tier)
    for (oid, j), r in zip(J, pmap(lambda t: one(tu, t[1]), J)):
        collect(rep, oid, where_of(tu, "time%d" % j[0]), r, "time steps")
    return rep.finish(
        "the list of time steps is interpreted with a symbolic relative error on every inexact operation: counters, bounds, levels and "
        "order of the steps are those of the partition, consecutive steps share the same number, the user's times are hit exactly, and no "
        "comparison depends on an error",
        ["the errors are small against the length of a step"], analysed={"functions": len(tu.functions)})
