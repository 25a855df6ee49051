"""Exact algebraic value domain of the abstract interpreter.

A numeric abstract value is a Python int / Fraction (a constant) or an `E`:
a rational function  num / prod(f_i^e_i)  over interned atoms.  Atoms are free
symbols or function symbols (sqrt, abs, log, ite, ...) applied to values.
sqrt(x)^2 -> x, abs(x)^2 -> x^2, sqrt of a perfect square -> abs: the normal form is
canonical up to algebraic dependencies between different sqrt/abs/fn atoms.
Nothing is sampled: equality is equality of normal forms.
"""
from fractions import Fraction
from functools import lru_cache

CONST = (int, Fraction)


class Atom:
    __slots__ = ("kind", "args", "id", "key")
    table = {}
    all = []

    def __new__(cls, kind, *args):
        key = (kind,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.key, a.id = kind, args, key, len(cls.all)
            cls.all.append(a)
            cls.table[key] = a
        return a

    def __repr__(self):
        if self.kind == "var":
            return str(self.args[0])
        return "%s(%s)" % (self.kind, ",".join(map(str, self.args)))

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


REDUCIBLE = set()   # ids of sqrt/abs atoms


def norm_const(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 60000


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul_raw(p, q):
    if len(p) * len(q) > 4000000:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            r[m] = v
    for m in [m for m, v in r.items() if v == 0]:
        del r[m]
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_scale(p, c):
    return {m: v * c for m, v in p.items()} if c != 0 else {}


P1 = {(): 1}


def p_key(p):
    return tuple(sorted(p.items()))


def p_lead(p):
    return max(p)      # any fixed total order on monomials: used only for sign/content


def p_content(p):
    """(c, prim) with prim having integer coprime coefficients and positive lead"""
    from math import gcd
    num, den = 0, 1
    for v in p.values():
        v = Fraction(v)
        num = gcd(num, abs(v.numerator))
        den = den * v.denominator // gcd(den, v.denominator)
    c = Fraction(num, den)
    if p[p_lead(p)] < 0:
        c = -c
    return norm_const(c), {m: norm_const(Fraction(v) / c) for m, v in p.items()}


def p_atoms(p):
    s = set()
    for m in p:
        for i, e in m:
            s.add(i)
    return s


def _gr(m):
    """graded-lex key so that division terminates"""
    d = dict(m)
    return (sum(d.values()), tuple(sorted(((-i, e) for i, e in m), reverse=True)))


def mono_div(a, b):
    d = dict(a)
    for i, e in b:
        k = d.get(i, 0) - e
        if k < 0:
            return None
        if k == 0:
            d.pop(i, None)
        else:
            d[i] = k
    return tuple(sorted(d.items()))


def lexkey(order):
    pos = {a: k for k, a in enumerate(order)}
    n = len(order)

    def key(m):
        v = [0] * n
        for i, e in m:
            v[pos[i]] = e
        return (sum(v), tuple(v))
    return key


def p_divexact(p, q):
    """p / q if exact (as polynomials) else None"""
    if not p:
        return {}
    if len(q) == 1:
        (mq, cq), = q.items()
        r = {}
        for m, c in p.items():
            d = mono_div(m, mq)
            if d is None:
                return None
            r[d] = norm_const(Fraction(c) / cq)
        return r
    aq = p_atoms(q)
    if not aq <= p_atoms(p):
        return None
    if len(p) > 6000:
        return None
    key = lexkey(sorted(p_atoms(p)))
    lq = max(q, key=key)
    cq = q[lq]
    r = {}
    rem = dict(p)
    steps = 0
    while rem:
        lm = max(rem, key=key)
        d = mono_div(lm, lq)
        if d is None:
            return None
        c = norm_const(Fraction(rem[lm]) / cq)
        r[d] = c
        for m, v in q.items():
            mm = mono_mul(m, d)
            x = rem.get(mm, 0) - c * v
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
        steps += 1
        if steps > 4000:
            return None
    return r


def c_sqrt(c):
    """exact square root of a nonnegative rational or None"""
    from math import isqrt
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm_const(Fraction(a, b))
    return None


def p_sqrt(p):
    """polynomial s with s*s == p, or None"""
    if not p:
        return {}
    if len(p) > 3000:
        return None
    key = lexkey(sorted(p_atoms(p)))
    lm = max(p, key=key)
    if any(e % 2 for _, e in lm):
        return None
    c0 = c_sqrt(p[lm])
    if c0 is None:
        return None
    m0 = tuple((i, e // 2) for i, e in lm)
    s = {m0: c0}
    rem = p_add(p, p_mul_raw(s, s), -1)
    for _ in range(400):
        if not rem:
            return s
        lr = max(rem, key=key)
        d = mono_div(lr, m0)
        if d is None:
            return None
        c = norm_const(Fraction(rem[lr]) / (2 * c0))
        if d in s or key(d) >= key(m0):
            return None
        t = {d: c}
        # rem -= 2*s*t + t*t
        rem = p_add(rem, p_mul_raw(p_scale(s, 2), t), -1)
        rem = p_add(rem, p_mul_raw(t, t), -1)
        s[d] = c
    return None


class E:
    """num / prod f^e ;  f are primitive polynomials given by key"""
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d            # tuple of (polykey, exp), sorted
        self._k = None

    # ---- canonical-ish key
    def key(self):
        if self._k is None:
            self._k = (p_key(self.n), self.d)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, CONST):
            return False
        return isinstance(o, E) and self.key() == o.key()

    def __repr__(self):
        return show(self)

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return mul(-1, s)


def show_mono(m):
    return "*".join("%r%s" % (Atom.all[i], "" if e == 1 else "^%d" % e) for i, e in m)


def show_p(p, lim=14):
    ts = sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0]))
    out = []
    for m, c in ts[:lim]:
        s = show_mono(m)
        if not s:
            out.append("%s" % (c,))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c if not isinstance(c, Fraction) or c.denominator < 10**6 else "%.12g" % float(c), s))
    r = " + ".join(out).replace("+ -", "- ")
    if len(ts) > lim:
        r += " + ...(%d terms)" % len(ts)
    return r or "0"


def show(e):
    if isinstance(e, CONST):
        return str(e)
    s = show_p(e.n)
    if e.d:
        s = "(%s)/(%s)" % (s, " * ".join("(%s)%s" % (show_p(dict(k)), "" if x == 1 else "^%d" % x) for k, x in e.d))
    return s


def num_poly(x):
    if isinstance(x, CONST):
        return {(): x} if x != 0 else {}
    return x.n


def den(x):
    return () if isinstance(x, CONST) else x.d


def mk(n, d=()):
    """normalise"""
    if not n:
        return 0
    if d:
        dd = []
        for k, e in d:
            f = dict(k)
            while e > 0:
                q = p_divexact(n, f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                dd.append((k, e))
        d = tuple(dd)
    if not d and len(n) == 1 and () in n:
        return norm_const(n[()])
    return E(n, d)


def var(name):
    return E({((Atom("var", name).id, 1),): 1})


def atom_e(a):
    return E({((a.id, 1),): 1})


def reduce_poly(n):
    """apply sqrt(x)^2 -> x and abs(x)^2 -> x^2; returns a value"""
    bad = False
    for m in n:
        for i, e in m:
            if e >= 2 and i in REDUCIBLE:
                bad = True
                break
        if bad:
            break
    if not bad:
        return mk(n)
    keep, res = {}, 0
    groups = {}
    for m, c in n.items():
        rest, fac = [], []
        for i, e in m:
            if e >= 2 and i in REDUCIBLE:
                fac.append((i, e // 2))
                if e % 2:
                    rest.append((i, 1))
            else:
                rest.append((i, e))
        groups.setdefault(tuple(fac), {})
        g = groups[tuple(fac)]
        rm = tuple(rest)
        g[rm] = g.get(rm, 0) + c
    for fac, p in groups.items():
        v = mk({m: c for m, c in p.items() if c != 0})
        for i, e in fac:
            a = Atom.all[i]
            x = a.args[0]
            if a.kind == "abs":
                x = mul(x, x)
            for _ in range(e):
                v = mul(v, x)
        res = add(res, v)
    return res


def d_merge(d1, d2):
    r = dict(d1)
    for k, e in d2:
        r[k] = max(r.get(k, 0), e)
    return r


def d_missing(d, target):
    x = dict(d)
    return [(k, e - x.get(k, 0)) for k, e in target.items() if e > x.get(k, 0)]


def p_pow(p, e):
    r = P1
    for _ in range(e):
        r = p_mul_raw(r, p)
    return r


def add(a, b):
    if isinstance(a, CONST) and isinstance(b, CONST):
        return norm_const(a + b)
    if isinstance(a, CONST) and a == 0:
        return b
    if isinstance(b, CONST) and b == 0:
        return a
    da, db = den(a), den(b)
    na, nb = num_poly(a), num_poly(b)
    if da == db:
        return mk(p_add(na, nb), da)
    t = d_merge(da, db)
    red = False
    for k, e in d_missing(da, t):
        na = p_mul_raw(na, p_pow(dict(k), e))
        red = True
    for k, e in d_missing(db, t):
        nb = p_mul_raw(nb, p_pow(dict(k), e))
    n = p_add(na, nb)
    r = reduce_poly(n)
    return over(r, tuple(sorted(t.items())))


def over(v, d):
    """v / prod d"""
    if isinstance(v, CONST):
        if v == 0:
            return 0
        return mk({(): v}, d)
    if not v.d:
        return mk(v.n, d)
    t = dict(v.d)
    for k, e in d:
        t[k] = t.get(k, 0) + e
    return mk(v.n, tuple(sorted(t.items())))


def sub(a, b):
    return add(a, mul(-1, b))


def mul(a, b):
    if isinstance(a, CONST) and isinstance(b, CONST):
        return norm_const(a * b)
    if isinstance(b, CONST):
        a, b = b, a
    if isinstance(a, CONST):
        if a == 0:
            return 0
        if a == 1:
            return b
        return E(p_scale(b.n, a), b.d)
    n = p_mul_raw(a.n, b.n)
    d = dict(a.d)
    for k, e in b.d:
        d[k] = d.get(k, 0) + e
    r = reduce_poly(n)
    return over(r, tuple(sorted(d.items())))


class DivZero(Exception):
    pass


def div(a, b):
    if isinstance(b, CONST):
        if b == 0:
            raise DivZero()
        return mul(a, norm_const(Fraction(1) / b))
    return mul(a, inv(b))


def inv(b):
    if isinstance(b, CONST):
        if b == 0:
            raise DivZero()
        return norm_const(Fraction(1) / b)
    # 1/(n/prod d) = prod d / n
    r = 1
    for k, e in b.d:
        r = mul(r, E(p_pow(dict(k), e)))
    c, prim = p_content(b.n)
    if len(prim) == 1:
        (m, cc), = prim.items()
        c = norm_const(Fraction(c) * cc)
        out = r
        d = {}
        for i, e in m:
            a = Atom.all[i]
            if a.kind == "sqrt" or a.kind == "abs":
                # 1/s^e = s^e/(s^2)^e  (e==1 after reduction)
                out = mul(out, atom_e(a))
                x = a.args[0]
                x = mul(x, x) if a.kind == "abs" else x
                out = mul(out, inv(x))
            else:
                k = p_key({((i, 1),): 1})
                d[k] = d.get(k, 0) + e
        out = mul(out, norm_const(Fraction(1) / c))
        return over(out, tuple(sorted(d.items())))
    # pull out common monomial
    com = None
    for m in prim:
        dm = dict(m)
        com = dm if com is None else {i: min(e, dm[i]) for i, e in com.items() if i in dm}
    d = {}
    if com:
        cm = tuple(sorted(com.items()))
        prim = {mono_div(m, cm): v for m, v in prim.items()}
        rest = inv(E({cm: 1}))
        r = mul(r, rest)
    k = p_key(prim)
    # perfect square denominators are stored as squares
    s = p_sqrt(prim)
    if s is not None and len(s) > 1:
        cs, sp = p_content(s)
        d[p_key(sp)] = 2
        r = mul(r, norm_const(Fraction(1) / (cs * cs)))
    else:
        d[k] = 1
    r = mul(r, norm_const(Fraction(1) / c))
    return over(r, tuple(sorted(d.items())))


def powi(a, n):
    if n < 0:
        return inv(powi(a, -n))
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


def eq(a, b):
    d = sub(a, b)
    return isinstance(d, CONST) and d == 0


def sqrt_(x):
    if isinstance(x, CONST):
        s = c_sqrt(x)
        if s is not None:
            return s
        # split off square part of rational: sqrt(p/q) = sqrt(p*q)/q
        x = Fraction(x)
        if x < 0:
            return fn("sqrt_neg", x)
        from math import isqrt
        pq = x.numerator * x.denominator
        sq, rest = 1, pq
        f = 2
        while f * f <= rest and f < 1000:
            while rest % (f * f) == 0:
                rest //= f * f
                sq *= f
            f += 1
        out = norm_const(Fraction(sq, x.denominator))
        # one root per prime factor, so that equal constants have one form
        f = 2
        while rest > 1:
            if f * f > rest or f >= 1000:
                f = rest
            if rest % f == 0:
                rest //= f
                a = Atom("sqrt", f)
                REDUCIBLE.add(a.id)
                out = mul(out, atom_e(a))
            else:
                f += 1
        return out
    # x = c * prim / d
    c, prim = p_content(x.n)
    if c < 0:
        prim = p_scale(prim, -1)
        c = -c
    out = sqrt_(c)
    # denominators: sqrt(n/f) = sqrt(n f)/f for odd exponents
    dd = {}
    for k, e in x.d:
        f = dict(k)
        if e % 2:
            prim = p_mul_raw(prim, f)
            e += 1
        # sqrt(f^e) = |f^(e/2)|
        h = powi(E(f), e // 2)
        out = mul(out, inv(abs_(h)))
    # common monomial squares
    s = p_sqrt(prim)
    if s is not None:
        return mul(out, abs_(mk(s)))
    com = None
    for m in prim:
        dm = dict(m)
        com = dm if com is None else {i: min(e, dm[i]) for i, e in com.items() if i in dm}
    if com:
        cm = tuple(sorted((i, e - e % 2) for i, e in com.items() if e - e % 2))
        if cm:
            prim = {mono_div(m, cm): v for m, v in prim.items()}
            out = mul(out, abs_(E({tuple((i, e // 2) for i, e in cm): 1})))
        # roots of roots are split off, one by one
        rt = tuple(sorted((i, 1) for i, e in com.items() if e % 2 and Atom.all[i].kind == "sqrt"))
        if rt and (len(rt) > 1 or any(m != rt for m in prim)):
            prim = {mono_div(m, rt): v for m, v in prim.items()}
            for i, _ in rt:
                a = Atom("sqrt", atom_e(Atom.all[i]))
                REDUCIBLE.add(a.id)
                out = mul(out, atom_e(a))
    if list(prim) == [()]:
        return mul(out, sqrt_(prim[()]))
    v = reduce_poly(prim)
    a = Atom("sqrt", v)
    REDUCIBLE.add(a.id)
    return mul(out, atom_e(a))


POSITIVE = set()     # atoms declared positive


def nonneg_poly(p):
    """syntactic: every monomial is a product of even powers / nonnegative atoms with a positive coefficient"""
    for m, c in p.items():
        if c < 0:
            return False
        for i, e in m:
            if e % 2 and Atom.all[i].kind not in ("sqrt", "abs") and i not in POSITIVE:
                return False
    return True


def abs_(x):
    if isinstance(x, CONST):
        return abs(x)
    c, prim = p_content(x.n)
    out = abs(c)
    for k, e in x.d:
        f = E(dict(k))
        g = powi(f, e)
        out = mul(out, inv(g if (e % 2 == 0 or nonneg_poly(f.n)) else abs_(g)))
    if nonneg_poly(prim):
        return mul(out, mk(prim))
    if len(prim) == 1:
        (m, cc), = prim.items()
        for i, e in m:
            a = Atom.all[i]
            if a.kind in ("sqrt", "abs") or e % 2 == 0 or i in POSITIVE:
                out = mul(out, E({((i, e),): 1}))
            else:
                if e > 1:
                    out = mul(out, E({((i, e - 1),): 1}))
                b = Atom("abs", atom_e(a))
                REDUCIBLE.add(b.id)
                out = mul(out, atom_e(b))
        return out
    a = Atom("abs", E(prim))
    REDUCIBLE.add(a.id)
    return mul(out, atom_e(a))


def fn(name, *args):
    return atom_e(Atom("fn:" + name, *args))


# ---------------------------------------------------------------- booleans
class B:
    """interned boolean: const | lt0(E) | eq0(E) | opaque(key) | not | and | or"""
    __slots__ = ("op", "args", "id")
    table = {}

    def __new__(cls, op, *args):
        k = (op,) + args
        b = cls.table.get(k)
        if b is None:
            b = object.__new__(cls)
            b.op, b.args, b.id = op, args, len(cls.table)
            cls.table[k] = b
        return b

    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

    def __repr__(self):
        if self.op == "lt0":
            return "(%s < 0)" % show(self.args[0])
        if self.op == "eq0":
            return "(%s == 0)" % show(self.args[0])
        if self.op == "not":
            return "!%r" % (self.args[0],)
        if self.op in ("and", "or"):
            return "(%s)" % ((" && " if self.op == "and" else " || ").join(map(repr, self.args)))
        if self.op == "const":
            return str(self.args[0])
        return "%s%s" % (self.op, self.args)


TRUE, FALSE = B("const", True), B("const", False)


def b_const(v):
    return TRUE if v else FALSE


def b_not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    return B("not", b)


def b_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    if b_not(a) is b:
        return FALSE
    return B("and", *sorted((a, b), key=lambda x: x.id))


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def pos_normal(e):
    """scale by a positive constant so that equal sign conditions coincide"""
    c, prim = p_content(e.n)
    out = E(prim if c > 0 else p_scale(prim, -1))
    for k, x in e.d:
        f = dict(k)
        if x % 2 and not nonneg_poly(f):
            out = mul(out, E(f))
    return out


NAN = None


def nan():
    """the value of 0/0: every comparison with it is false"""
    global NAN
    if NAN is None:
        NAN = atom_e(Atom("nan"))
    return NAN


def has_nan(e):
    if NAN is None or isinstance(e, CONST):
        return False
    for i in {i for p in [e.n] + [dict(k) for k, _ in e.d] for m in p for i, _ in m}:
        a = Atom.all[i]
        if a.kind == "nan" or (a.kind != "ite" and any(isinstance(x, E) and has_nan(x) for x in a.args)):
            return True
    return False


CONST_FN = ("sqrt", "abs", "fn:log")


def numeric(e):
    """value of a constant expression made of square roots and logarithms, to 60 digits; None for anything else"""
    from decimal import Decimal, localcontext
    if isinstance(e, CONST):
        e = Fraction(e)
        return Decimal(e.numerator) / Decimal(e.denominator)

    def poly(p):
        s = Decimal(0)
        for m, c in p.items():
            t = numeric(c)
            for i, k in m:
                a = Atom.all[i]
                v = numeric(a.args[0]) if a.kind in CONST_FN and isinstance(a.args[0], CONST + (E,)) else None
                if v is None or (v < 0 and a.kind == "sqrt") or (v <= 0 and a.kind == "fn:log"):
                    return None
                t *= (v.sqrt() if a.kind == "sqrt" else v.ln() if a.kind == "fn:log" else abs(v)) ** k
            s += t
        return s
    v = poly(e.n)
    for k, x in e.d:
        d = None if v is None else poly(dict(k))
        if not d:
            return None
        v /= d ** x
    return v


def const_sign(e):
    """sign of a constant expression when it is far enough from zero, else None"""
    from decimal import Decimal, localcontext
    if any(Atom.all[i].kind not in CONST_FN for m in e.n for i, _ in m):
        return None
    with localcontext() as c:
        c.prec = 60
        v = numeric(e)
        if v is None or abs(v) < Decimal(10) ** -30:
            return None
        return -1 if v < 0 else 1


HUGE = 2 ** 900


def lt(a, b):
    if has_nan(a) or has_nan(b):
        return FALSE
    d = sub(a, b)
    if isinstance(d, CONST):
        return b_const(d < 0)
    # a bound no finite double of a geometric or physical quantity reaches (numeric_limits: max, lowest, infinity)
    if isinstance(b, CONST) and abs(b) >= HUGE:
        return b_const(b > 0)
    if isinstance(a, CONST) and abs(a) >= HUGE:
        return b_const(a < 0)
    g = const_sign(d)
    if g:
        return b_const(g < 0)
    d = pos_normal(d)
    if isinstance(d, CONST):
        return b_const(d < 0)
    if nonneg_poly(d.n) :
        return FALSE
    return B("lt0", d)


def le(a, b):
    if has_nan(a) or has_nan(b):
        return FALSE
    return b_not(lt(b, a))


def eqb(a, b):
    if has_nan(a) or has_nan(b):
        return FALSE
    d = sub(a, b)
    if isinstance(d, CONST):
        return b_const(d == 0)
    if const_sign(d):
        return FALSE
    c, prim = p_content(d.n)
    return B("eq0", E(prim))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if (isinstance(a, CONST) and isinstance(b, CONST) and a == b) or a is b or (isinstance(a, E) and a == b):
        return a
    # |x| patterns
    base, neg = c, False
    if c.op == "not":
        base, neg = c.args[0], True
    if base.op == "lt0":
        t, f = (b, a) if neg else (a, b)          # t when e<0
        e = base.args[0]
        if eq(add(t, f), 0):
            q = div(f, e) if not isinstance(f, CONST) else None
            if isinstance(q, CONST):
                return mul(q, abs_(e)) if q > 0 else mul(q, abs_(e))
        # max/min patterns stay as ite
        if neg:
            return atom_e(Atom("ite", base, b, a))
    elif neg:
        return atom_e(Atom("ite", base, b, a))
    return atom_e(Atom("ite", c, a, b))


# ---------------------------------------------------------------- traversal
def atoms_of(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, E):
        ids = p_atoms(v.n)
        for k, _ in v.d:
            ids |= p_atoms(dict(k))
        for i in ids:
            a = Atom.all[i]
            if a in acc:
                continue
            acc.add(a)
            for x in a.args:
                atoms_of(x, acc)
    elif isinstance(v, B):
        for x in v.args:
            atoms_of(x, acc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            atoms_of(x, acc)
    return acc


def conds_of(v):
    return {a.args[0] for a in atoms_of(v) if a.kind == "ite"}


def subst(v, f, memo=None):
    """rebuild v replacing atom a by f(a, rebuilt_args) (None = keep)"""
    if memo is None:
        memo = {}
    if isinstance(v, CONST) or v is None or isinstance(v, str):
        return v
    if isinstance(v, B):
        if v.op in ("lt0", "eq0"):
            x = subst(v.args[0], f, memo)
            return lt(x, 0) if v.op == "lt0" else eqb(x, 0)
        if v.op == "not":
            return b_not(subst(v.args[0], f, memo))
        if v.op == "and":
            r = TRUE
            for x in v.args:
                r = b_and(r, subst(x, f, memo))
            return r
        return v
    if not isinstance(v, E):
        return v

    def at(i):
        if i in memo:
            return memo[i]
        a = Atom.all[i]
        args = tuple(subst(x, f, memo) for x in a.args)
        r = f(a, args)
        if r is None:
            if all(x is y or x == y for x, y in zip(args, a.args)):
                r = atom_e(a)
            else:
                r = rebuild(a.kind, args)
        memo[i] = r
        return r

    def poly(p):
        ids = p_atoms(p)
        ch = {i: at(i) for i in ids}
        if all(isinstance(x, E) and x == atom_e(Atom.all[i]) for i, x in ch.items()):
            return E(p)
        r = 0
        for m, c in p.items():
            t = c
            for i, e in m:
                t = mul(t, powi(ch[i], e))
            r = add(r, t)
        return r
    n = poly(v.n)
    for k, e in v.d:
        n = div(n, powi(poly(dict(k)), e))
    return n


def rebuild(kind, args):
    if kind == "sqrt":
        return sqrt_(args[0])
    if kind == "abs":
        return abs_(args[0])
    if kind == "ite":
        return ite(*args)
    return atom_e(Atom(kind, *args))


def assume(v, lits):
    """specialise v under {B atom: bool} literals on lt0/eq0/opaque conditions"""
    def truth(b):
        if b in lits:
            return lits[b]
        if b.op == "not":
            t = truth(b.args[0])
            return None if t is None else not t
        if b.op == "and":
            ts = [truth(x) for x in b.args]
            if any(t is False for t in ts):
                return False
            if all(t is True for t in ts):
                return True
            return None
        if b.op == "const":
            return b.args[0]
        return None

    def f(a, args):
        if a.kind == "ite":
            t = truth(a.args[0])
            if t is None and isinstance(args[0], B):
                t = truth(args[0])
            if t is True:
                return args[1]
            if t is False:
                return args[2]
        if a.kind == "abs":
            x = a.args[0]
            b = lt(x, 0)
            if b in lits:
                return mul(-1, args[0]) if lits[b] else args[0]
            b = lt(mul(-1, x), 0)
            if b in lits:
                return args[0] if lits[b] else mul(-1, args[0])
        return None
    return subst(v, f)


def base_conds(bs):
    out = set()
    st = list(bs)
    while st:
        b = st.pop()
        if b.op in ("not", "and"):
            st.extend(b.args)
        elif b.op != "const":
            out.add(b)
    return out


def cases(vals, limit=10):
    """all assignments of the base conditions occurring in vals (None if too many)"""
    import itertools
    cs = set()
    for v in vals:
        cs |= base_conds(conds_of(v))
    cs = sorted(cs, key=lambda b: b.id)
    if len(cs) > limit:
        return None
    out = [dict(zip(cs, t)) for t in itertools.product((False, True), repeat=len(cs))]
    return [c for c in out if feasible(c)]


def feasible(c):
    """drop assignments that contradict e<0 / -e<0 / e=0 trichotomy"""
    for b, v in c.items():
        if b.op not in ("lt0", "eq0"):
            continue
        e = b.args[0]
        if not isinstance(e, E):
            continue
        n = lt(mul(-1, e), 0)
        p = lt(e, 0)
        z = eqb(e, 0)
        sg = [c.get(x) for x in (n, p, z)]
        if sg.count(True) > 1 or sg.count(False) == 3:
            return False
    return True


def equal_all_cases(a, b, limit=10):
    """True if a == b on every gate assignment; else (False, assignment, a', b')"""
    if eq(a, b):
        return True, None
    cs = cases([a, b], limit)
    if cs is None:
        return None, None
    for lits in cs:
        x, y = assume(a, lits), assume(b, lits)
        if not eq(x, y):
            return False, (lits, x, y)
    return True, None


def diff(v, at):
    """partial derivative with respect to atom `at`"""
    if isinstance(v, CONST):
        return 0

    def dp(p):
        r = 0
        for m, c in p.items():
            for j, (i, e) in enumerate(m):
                da = dat(i)
                if isinstance(da, CONST) and da == 0:
                    continue
                rest = tuple(x for k, x in enumerate(m) if k != j)
                if e > 1:
                    rest = tuple(sorted(rest + ((i, e - 1),)))
                r = add(r, mul(da, E({rest: c * e}) if rest else c * e))
        return r
    memo = {}

    def dat(i):
        if i in memo:
            return memo[i]
        a = Atom.all[i]
        if a is at:
            r = 1
        elif a.kind == "var":
            r = 0
        elif a.kind == "sqrt":
            r = div(diff(a.args[0], at), mul(2, atom_e(a)))
        elif a.kind == "abs":
            # d|x| = sign(x) dx = |x|/x dx
            r = mul(div(atom_e(a), a.args[0]), diff(a.args[0], at))
        elif a.kind == "fn:log":
            r = div(diff(a.args[0], at), a.args[0])
        elif a.kind == "fn:exp":
            r = mul(atom_e(a), diff(a.args[0], at))
        elif a.kind == "fn:sin":
            r = mul(fn("cos", a.args[0]), diff(a.args[0], at))
        elif a.kind == "fn:cos":
            r = mul(mul(-1, fn("sin", a.args[0])), diff(a.args[0], at))
        elif a.kind == "ite":
            r = ite(a.args[0], diff(a.args[1], at), diff(a.args[2], at))
        else:
            if all(at not in atoms_of(x) for x in a.args):
                r = 0
            else:
                raise TooBig("derivative of " + a.kind)
        memo[i] = r
        return r
    n = dp(v.n)
    out = over(n, v.d) if not isinstance(n, CONST) or n != 0 else 0
    for k, e in v.d:
        f = E(dict(k))
        df = dp(f.n)
        if isinstance(df, CONST) and df == 0:
            continue
        out = sub(out, div(mul(mul(e, v), df), f))
    return out


def sign_by(b, polys):
    """truth value of lt0(e) / eq0(e) when e is a product of polynomials known to be positive and of lengths
    (square roots of sums of squares that appear in it, taken to be nonzero), None if it is not"""
    e = b.args[0]
    if not isinstance(e, E) or e.d:
        return None
    p, lens = dict(e.n), []
    if len(p) > 400:
        return None
    for i in p_atoms(p):
        a = Atom.all[i]
        if a.kind not in ("sqrt", "abs"):
            continue
        if a.kind == "sqrt" and isinstance(a.args[0], E):
            lens.append(p_content(a.args[0].n)[1])
        k = min(dict(m).get(i, 0) for m in p)
        if k:
            p = {mono_div(m, ((i, k),)): c for m, c in p.items()}
    cand = [(p_content(q.n)[1], p_content(q.n)[0] > 0) for q in polys if isinstance(q, E) and not q.d] + [(q, True) for q in lens]
    sg, go = 1, True
    while go and not (len(p) == 1 and () in p):
        go = False
        for q, plus in cand:
            if len(q) == 1 and () in q:
                continue
            r = p_divexact(p, q)
            if r is not None:
                p, go = r, True
                sg = sg if plus else -sg
                break
    if not (len(p) == 1 and () in p):
        return None
    return (sg * p[()] < 0) if b.op == "lt0" else False


def sign_under(b, pos):
    """truth value of lt0(e) / eq0(e) when the variables in `pos` (atom ids) are positive, None if unknown"""
    e = b.args[0]
    if not isinstance(e, E) or e.d:
        return None
    sg = 0
    for m, c in e.n.items():
        for a, k in m:
            if a in pos:
                continue
            A = Atom.all[a]
            return None
        s = 1 if c > 0 else -1
        if sg and s != sg:
            return None
        sg = s
    if not sg:
        return None
    return (sg < 0) if b.op == "lt0" else False
