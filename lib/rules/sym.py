"""Shared helpers of the rules that interpret numeric code over the exact algebra."""
import itertools, math
from fractions import Fraction
import alg, vg
from alg import CONST, E, Atom
from vg import Obj, Seq, Mat, Und, Thrown, OutOfBounds, ShapeError

INCONCLUSIVE = (Und, alg.TooBig, RecursionError)
DEFINITE = (OutOfBounds, ShapeError)


def pt_cls(dim, T="double"):
    return "disk::point<%s, %d>" % (T, dim)


def mkpt(name, dim, T="double"):
    return Obj(pt_cls(dim, T), {"m_coords": Seq([alg.var(name + c) for c in "xyz"[:dim]])})


def cpt(cs, T="double"):
    return Obj(pt_cls(len(cs), T), {"m_coords": Seq(list(cs))})


def vec(v):
    """components of a point / small vector value"""
    if isinstance(v, Obj):
        if "m_coords" in v.f:
            return vec(v.f["m_coords"])
        if "<base>" in v.f:
            return vec(v.f["<base>"])
        for x in v.f.values():
            try:
                return vec(x)
            except Und:
                pass
        raise Und("no components in " + v.cls)
    if isinstance(v, Seq):
        return [vg.num(x) for x in v.e]
    if isinstance(v, Mat):
        return [vg.num(x) for x in v.e]
    raise Und("no components in %s" % type(v).__name__)


def qp(v):
    """(point components, weight) of a quadrature point value"""
    if isinstance(v, Obj):
        p = w = None
        for k, x in v.f.items():
            if isinstance(x, (Obj, Seq, Mat)):
                p = vec(x)
            else:
                w = x
        if p is not None and w is not None:
            return p, vg.num(w)
    if isinstance(v, Seq) and len(v.e) == 2:
        return vec(v.e[0]), vg.num(v.e[1])
    raise Und("not a quadrature point")


def poly(e):
    """{monomial(atom ids): coefficient} of a polynomial value"""
    if isinstance(e, CONST):
        return {(): Fraction(e)} if e != 0 else {}
    if isinstance(e, E):
        if e.d:
            raise Und("not a polynomial")
        return dict(e.n)
    raise Und("not a polynomial")


def pclose(a, b, tol):
    """polynomials equal coefficientwise up to tol (relative to the largest coefficient of b)"""
    pa, pb = poly(a), poly(b)
    ref = max([abs(float(c)) for c in pb.values()] + [1e-30])
    return all(abs(float(pa.get(m, 0)) - float(pb.get(m, 0))) <= tol * max(ref, 1.0) for m in set(pa) | set(pb))


def close(a, b, tol=1e-12):
    """equality up to the rounding of literal constants: polynomials, and a constant times |polynomial|"""
    if alg.eq(a, b):
        return True
    try:
        sa, sb = absform(a), absform(b)
        if (sa is None) != (sb is None):
            return False
        if sa is None:
            return pclose(a, b, tol)
        return pclose(sa, sb, tol) or pclose(sa, alg.mul(-1, sb), tol)
    except Und:
        return False


def absform(e):
    """if e = c*|p| or e=c*sqrt(p^2...) with c>0: the polynomial c*p, else None"""
    if isinstance(e, E) and not e.d and len(e.n) == 1:
        (m, c), = e.n.items()
        if len(m) == 1 and m[0][1] == 1:
            a = Atom.all[m[0][0]]
            if a.kind == "abs" and c > 0:
                return alg.mul(c, a.args[0])
    return None


def lin_coeffs(e, atoms):
    """coefficients of a linear form in the given variables (rest must be absent), plus the constant"""
    p = poly(e)
    ids = {list(poly(alg.atom_e(a)))[0]: i for i, a in enumerate(atoms)}
    out = [Fraction(0)] * len(atoms)
    c0 = Fraction(0)
    for m, c in p.items():
        if m == ():
            c0 = c
        elif m in ids:
            out[ids[m]] = c
        else:
            raise Und("not affine")
    return out, c0


def atom_of(v):
    """the variable atom behind alg.var(...)"""
    return Atom.all[list(poly(v))[0][0][0]]


def float_of(c):
    return float(c)


def is_const(x):
    return isinstance(x, CONST)


def simplify_cases(e, limit=10):
    """e on every assignment of its gates -> list of (assignment, value)"""
    cs = alg.cases([e], limit)
    if cs is None:
        raise Und("too many gates")
    return [(c, alg.assume(e, c)) for c in cs]


def run(tu, q, args, ov=None, unbox=True, **kw):
    """interpret probe function q.  args: values (boxed for reference parameters)"""
    fs = tu.fns(q)
    if not fs:
        raise Und("probe %s does not compile against this tree" % q)
    f = fs[0]
    if "body" not in f:
        raise Und("no body for " + q)
    I = vg.Interp(tu, ov, **kw)
    a = [I.new(x) if isinstance(x, (Obj, Seq, Mat)) else x for x in args]
    return I, I.call_fn(f, a)


def monomials(dim, deg):
    for t in itertools.product(range(deg + 1), repeat=dim):
        if sum(t) <= deg:
            yield t


def fact(n): return math.factorial(n)


def pmap(fn, jobs, workers=8):
    """run fn(job) over forked workers; fn's results must be picklable.  Exceptions become ('exc', kind, text)"""
    import multiprocessing as mp
    global _FN
    _FN = fn
    if len(jobs) < 2:
        return [_call(j) for j in jobs]
    with mp.get_context("fork").Pool(min(workers, len(jobs))) as p:
        return p.map(_call, jobs, chunksize=1)


import time as _time
T0 = _time.time()
BUDGET, JOB = 660, 150      # seconds: no job starts after BUDGET, none lasts more than JOB


class TimeLimit(Exception):
    pass


def _alarm(sig, frame):
    raise TimeLimit("more than %d s" % JOB)


def _call(j):
    import sys, signal
    sys.setrecursionlimit(20000)
    if _time.time() - T0 > BUDGET:
        return ("und", "TimeLimit", "not analysed: the time of the check is used up")
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(JOB)
        try:
            return ("val", _FN(j))
        finally:
            signal.alarm(0)
    except INCONCLUSIVE as e:
        return ("und", type(e).__name__, str(e)[:300])
    except DEFINITE as e:
        return ("def", type(e).__name__, str(e)[:300])
    except Thrown as t:
        return ("thr", str(t.where), thrown_text(t)[:200])
    except Exception as e:
        import traceback
        return ("und", type(e).__name__, (str(e) + " " + traceback.format_exc().splitlines()[-3])[:300])


def thrown_text(t):
    s = repr(t.val)
    return s


def collect(rep, oid, where, res, title):
    """book the outcome of a pmap job that returns (ok?, text)"""
    if res[0] == "und":
        rep.und(oid, where, "%s: %s" % (res[1], res[2]))
    elif res[0] == "def":
        rep.bad(oid, where, "%s: %s" % (title, res[2]))
    elif res[0] == "thr":
        rep.bad(oid, where, "%s: ends with an exception raised in %s" % (title, res[1]))
    else:
        ok, text = res[1]
        if ok is None:
            rep.und(oid, where, text)
        elif ok:
            rep.ok(oid, where, text)
        else:
            rep.bad(oid, where, "%s: %s" % (title, text))
