"""The domain of integrals.  A quadrature loop is interpreted once, with a single *generic* node (symbolic coordinates, symbolic
weight); what it accumulates is therefore weight * integrand with the integrand an exact polynomial of the node.  reduce() applies
the integration functional of the element (exact moments) to such values; it is used where the code stops being linear in the
integrals (products of two integrals, linear systems) and on the results.  For every quadrature call the degree asked for and the
degree of the integrands that were accumulated with it are recorded."""
from fractions import Fraction
from math import factorial
import alg, vg
from alg import CONST, E, Atom
from vg import Und

Fr = Fraction


def _mulp(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(i + j for i, j in zip(a, b))
            out[k] = out.get(k, 0) + x * y
    return {k: v for k, v in out.items() if v}


class Elem:
    """a physical element as a list of simplices (each a list of rational vertices)"""

    def __init__(self, simplices, label):
        self.s = simplices
        self.label = label
        self.memo = {}
        self.rmemo = {}
        self.dim = len(simplices[0]) - 1

    def meas(self, S):
        v = [[a - b for a, b in zip(p, S[0])] for p in S[1:]]
        k = len(v)
        G = [[sum(x * y for x, y in zip(a, b)) for b in v] for a in v]
        d = det(G)
        r = alg.sqrt_(Fr(d)) if k else 1
        return alg.mul(Fr(1, factorial(k)), r)

    def bary(self, S, ex):
        """x^ex restricted to the simplex as a polynomial of its barycentric coordinates"""
        k = len(S)
        P = {(0,) * k: Fr(1)}
        for i, e in enumerate(ex):
            lin = {tuple(1 if j == t else 0 for j in range(k)): Fr(S[t][i]) for t in range(k) if S[t][i]}
            for _ in range(e):
                P = _mulp(P, lin)
        return P

    def moment(self, ex):
        if ex in self.memo:
            return self.memo[ex]
        tot = 0
        for S in self.s:
            k = len(S) - 1
            v = Fr(0)
            for b, c in self.bary(S, ex).items():
                t = Fr(factorial(k))
                for x in b:
                    t *= factorial(x)
                v += c * t / factorial(sum(b) + k)
            tot = alg.add(tot, alg.mul(v, self.meas(S)))
        self.memo[ex] = tot
        return tot

    def degree(self, p):
        """degree of the polynomial {exponents: coefficient} restricted to the element"""
        if not p:
            return 0
        top = max(sum(e) for e in p)
        nv = len(next(iter(p)))
        if self.dim == nv:
            return top
        S = self.s[0]
        k = len(S) - 1
        # substitute x = S0 + sum t_j (S_j - S0)
        out = {}
        for ex, c in p.items():
            P = {(0,) * k: Fr(1)}
            for i, e in enumerate(ex):
                lin = {}
                if S[0][i]:
                    lin[(0,) * k] = Fr(S[0][i])
                for j in range(k):
                    d = Fr(S[j + 1][i]) - Fr(S[0][i])
                    if d:
                        lin[tuple(1 if q == j else 0 for q in range(k))] = d
                for _ in range(e):
                    P = _mulp(P, lin)
            for b, v in P.items():
                out[b] = alg.add(out.get(b, 0), alg.mul(c, v))
        return max([sum(b) for b, v in out.items() if not (isinstance(v, CONST) and v == 0)] + [0])


def det(G):
    n = len(G)
    if n == 0:
        return Fr(1)
    if n == 1:
        return Fr(G[0][0])
    return sum((-1) ** j * Fr(G[0][j]) * det([r[:j] + r[j + 1:] for r in G[1:]]) for j in range(n))


class Call:
    def __init__(self, n, elem, deg, w, x, where):
        self.n, self.elem, self.deg, self.where = n, elem, deg, where
        self.w, self.x = w, x
        self.top = None
        self.unweighted = False


class Measure:
    def __init__(self, dim, elem_of):
        """elem_of(I, call node, element value) -> Elem"""
        self.dim = dim
        self.elem_of = elem_of
        self.calls = []
        self.bw = {}     # weight atom id -> call
        self.bx = {}     # coordinate atom id -> (call, axis)
        self.memo = {}

    # -------------------------------------------------------------- the integrate() summary
    def integrate(self, I, e):
        el = I.deloc(I.ev(e["a"][1]))
        deg = vg.num(I.deloc(I.ev(e["a"][2])))
        if not isinstance(deg, CONST):
            raise Und("symbolic quadrature degree")
        elem = self.elem_of(I, e, el)
        n = len(self.calls)
        x = [alg.var("X%d_%d" % (n, i)) for i in range(self.dim)]
        w = alg.var("W%d" % n)
        c = Call(n, elem, int(deg), w, x, self.where_of(I, e))
        self.calls.append(c)
        self.bw[self._id(w)] = c
        for i, v in enumerate(x):
            self.bx[self._id(v)] = (c, i)
        return vg.Seq([self.mkqp(I, x, w)])

    @staticmethod
    def _id(v):
        return next(iter(v.n))[0][0]

    # -------------------------------------------------------------- reduction
    def calls_in(self, v):
        out = set()
        if isinstance(v, CONST) or not isinstance(v, E):
            return out
        for m in v.n:
            for a, k in m:
                c = self.bw.get(a)
                if c is not None:
                    out.add(c.n)
        return out

    def mat_calls(self, m):
        out = set()
        for x in m.e:
            out |= self.calls_in(x)
        return out

    def product(self, a, b):
        ca = self.mat_calls(a)
        if ca and ca & self.mat_calls(b):
            return self.reduce_mat(a), self.reduce_mat(b)
        return a, b

    def reduce_mat(self, m):
        if not self.mat_calls(m):
            return m
        return vg.Mat(m.r, m.c, [self.reduce(vg.num(x)) for x in m.e])

    def reduce(self, v):
        if isinstance(v, CONST) or not isinstance(v, E):
            return v
        cs = self.calls_in(v)
        if not cs:
            return v
        for c in sorted(cs, reverse=True):
            v = self.reduce1(v, self.calls[c])
            if isinstance(v, CONST):
                return v
        return v

    def reduce1(self, v, call):
        wid = self._id(call.w)
        xi = {self._id(x): i for i, x in enumerate(call.x)}
        rest = {}
        groups = {}
        for m, c in v.n.items():
            ex = [0] * self.dim
            wk = 0
            r = []
            for a, k in m:
                if a == wid:
                    wk = k
                elif a in xi:
                    ex[xi[a]] = k
                else:
                    r.append((a, k))
            if wk == 0:
                rest[m] = c
                if any(ex):
                    call.unweighted = True
                continue
            if wk > 1:
                raise NonLinear("the weight of a quadrature node appears with power %d" % wk)
            groups.setdefault(tuple(r), {})[tuple(ex)] = c
        out = alg.mk(rest)
        for r, p in groups.items():
            d = call.elem.degree(p)
            call.top = max(call.top or 0, d)
            s = 0
            for ex, c in p.items():
                s = alg.add(s, alg.mul(c, call.elem.moment(ex)))
            out = alg.add(out, alg.mul(s, alg.mk({r: Fr(1)})))
        if v.d:
            out = alg.over(out, v.d)
        return out


class NonLinear(Exception):
    pass
