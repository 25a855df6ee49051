"""Abstract interpreter over the exported (typed, instantiated) AST.

Domain: gated values.  Numbers are alg.E normal forms; aggregates are immutable trees;
storage is a heap  addr -> value  addressed by Loc(addr, path).  A branch whose condition is
not decided by constant propagation is analysed on both sides and the two abstract states are
*joined* with ite-gates (no path enumeration, no solver).  Loops with a constant trip count are
peeled; any other loop makes the obligation UNDECIDED.
"""
import re
from fractions import Fraction
import alg
import streams
from alg import CONST, E, B, TRUE, FALSE, Atom
from front import short


class Und(Exception):
    """the analysis cannot decide (unmodelled construct, symbolic loop bound, ...)"""


class Thrown(Exception):
    def __init__(self, val, where=None):
        self.val, self.where = val, where


class Seq:
    """std::array / std::vector / C array / tuple / pair"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o): return isinstance(o, Seq) and self.e == o.e
    def __hash__(self): return hash(self.e)
    def __repr__(self): return "[" + ", ".join(map(repr, self.e)) + "]"


class Mat:
    __slots__ = ("r", "c", "e", "dyn")

    def __init__(self, r, c, e, dyn=None):
        self.r, self.c, self.e, self.dyn = r, c, tuple(e), dyn

    def at(self, i, j): return self.e[i * self.c + j]
    def __eq__(self, o): return isinstance(o, Mat) and (self.r, self.c, self.e) == (o.r, o.c, o.e)
    def __hash__(self): return hash((self.r, self.c, self.e))
    def __repr__(self): return "Mat%dx%d%r" % (self.r, self.c, list(self.e))


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __eq__(self, o): return isinstance(o, Obj) and self.cls == o.cls and self.f == o.f
    def __hash__(self): return hash((self.cls, tuple(sorted(self.f.items(), key=lambda t: t[0]))))
    def __repr__(self): return "%s{%s}" % (short(self.cls), ", ".join("%s=%r" % t for t in self.f.items()))

    def get(self, k): return self.f.get(k)


class Opq:
    __slots__ = ("key",)

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o): return isinstance(o, Opq) and self.key == o.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return "?" + ".".join(map(str, self.key))


class Str:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
    def __eq__(self, o): return isinstance(o, Str) and self.s == o.s
    def __hash__(self): return hash(self.s)
    def __repr__(self): return repr(self.s)


class Loc:
    __slots__ = ("a", "p")

    def __init__(self, a, p=()):
        self.a, self.p = a, p

    def sub(self, *k): return Loc(self.a, self.p + k)
    def __eq__(self, o): return isinstance(o, Loc) and (self.a, self.p) == (o.a, o.p)
    def __hash__(self): return hash((self.a, self.p))
    def __repr__(self): return "&%s%s" % (self.a, "".join("/%s" % (x,) for x in self.p))


class LIte:
    """conditional lvalue"""
    __slots__ = ("c", "x", "y")
    def __init__(self, c, x, y): self.c, self.x, self.y = c, x, y
    def sub(self, *k): return LIte(self.c, self.x.sub(*k), self.y.sub(*k))
    def __eq__(self, o): return isinstance(o, LIte) and (self.c, self.x, self.y) == (o.c, o.x, o.y)
    def __hash__(self): return hash((self.c, self.x, self.y))


class Ptr:
    """pointer or iterator to an element: loc's last path component may be an int index"""
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc
    def __eq__(self, o): return isinstance(o, Ptr) and self.loc == o.loc
    def __hash__(self): return hash(self.loc)
    def __repr__(self): return "Ptr(%r)" % (self.loc,)


class RPtr(Ptr):
    """reverse iterator, kept as the position of the element it designates"""


class Fun:
    """a library function object: a transfer function on argument values"""
    __slots__ = ("n", "f")

    def __init__(self, n, f): self.n, self.f = n, f
    def __call__(self, I, args): return self.f(I, [I.deloc(a) for a in args])
    def __eq__(self, o): return isinstance(o, Fun) and self.n == o.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return self.n


class Lam:
    __slots__ = ("node", "env", "this")
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this


class Comma:
    __slots__ = ("loc", "r", "c", "h")
    def __init__(self, loc, r, c, h): self.loc, self.r, self.c, self.h = loc, r, c, h


class Refs:
    """std::tie"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)


class BackIns:
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc


class Uninit:
    def __repr__(self): return "<uninit>"


UN = Uninit()
NULLP = Ptr(None)

INT_T = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|long long|unsigned|size_t|bool|unsigned int|unsigned long|unsigned char|unsigned short|long long)( const)?( *&&?)?$")
FLT_T = re.compile(r"^(const )?(double|float|long double)( const)?( *&&?)?$")


UNS = {"unsigned long": 64, "size_t": 64, "unsigned int": 32, "unsigned": 32, "unsigned long long": 64, "unsigned char": 8, "unsigned short": 16}
SGN = {"int": 32, "long": 64, "long long": 64, "short": 16, "signed char": 8}


def wrap(v, t, signed=False):
    """arithmetic of unsigned types is modulo 2^n; conversions to signed types keep the representation"""
    if not isinstance(v, int) or isinstance(v, bool):
        return v
    t = strip_t(t)
    if t in UNS:
        return v % (1 << UNS[t])
    if signed and t in SGN:
        n = SGN[t]
        v %= 1 << n
        return v - (1 << n) if v >> (n - 1) else v
    return v


def is_int_t(t): return bool(INT_T.match(t))


VIEW = re.compile(r"Eigen::(Block|VectorBlock|Map|Ref|Transpose|Diagonal|ArrayWrapper|MatrixWrapper|NoAlias)<")


def split_targs(s):
    """template arguments of  name<...>"""
    i = s.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in s[i + 1:]:
        if ch == "<" or ch == "(":
            depth += 1
        elif ch == ">" or ch == ")":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_t(t):
    t = t.strip()
    while True:
        u = re.sub(r"^(const|volatile)\s+", "", t)
        u = re.sub(r"\s*(&&|&)$", "", u).strip()
        u = re.sub(r"\s+const$", "", u)
        if u == t:
            return t
        t = u


def mat_dims(t):
    """dims of an Eigen::Matrix/Array type string"""
    m = re.search(r"Eigen::(Matrix|Array)<", t)
    if not m:
        return (-1, -1) if re.match(r"(const )?Eigen::SparseMatrix<", t) else None
    a = split_targs(t[m.start():])
    try:
        return int(a[1]), int(a[2])
    except (ValueError, IndexError):
        return None


def num(v):
    if isinstance(v, (int, Fraction, E)) and not isinstance(v, bool):
        return v
    if isinstance(v, B):
        return alg.ite(v, 1, 0)
    if isinstance(v, Opq):
        return alg.var(repr(v))
    if isinstance(v, Mat) and v.r == 1 and v.c == 1:
        return num(v.e[0])
    if v is UN:
        raise Und("read of an uninitialised value")
    raise Und("not a number: %r" % (type(v).__name__,))


def tobool(v):
    if isinstance(v, B):
        return v
    if isinstance(v, CONST):
        return alg.b_const(v != 0)
    if isinstance(v, E):
        return alg.b_not(alg.eqb(v, 0))
    if isinstance(v, Ptr):
        return alg.b_const(v.loc is not None)
    if isinstance(v, Opq):
        return B("opq", v)
    raise Und("not a condition: %r" % (v,))


def vite(c, a, b):
    """gated join of two values"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or (type(a) == type(b) and a == b):
        return a
    if a is UN:
        return b
    if b is UN:
        return a
    if isinstance(a, (int, Fraction, E)) and isinstance(b, (int, Fraction, E)):
        return alg.ite(c, a, b)
    if isinstance(a, B) or isinstance(b, B):
        x, y = tobool(a), tobool(b)
        return alg.b_or(alg.b_and(c, x), alg.b_and(alg.b_not(c), y))
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [vite(c, x, y) for x, y in zip(a.e, b.e)], a.dyn)
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.e) == len(b.e):
        return Seq([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        ks = list(a.f) + [k for k in b.f if k not in a.f]
        return Obj(a.cls, {k: vite(c, a.f.get(k, UN), b.f.get(k, UN)) for k in ks})
    if isinstance(a, Loc) or isinstance(a, LIte):
        return LIte(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.loc is None or b.loc is None:
            return Gate(c, a, b)
        return Ptr(LIte(c, a.loc, b.loc))
    return Gate(c, a, b)


class Gate:
    """join of structurally different values"""
    __slots__ = ("c", "x", "y")
    def __init__(self, c, x, y): self.c, self.x, self.y = c, x, y
    def __eq__(self, o): return isinstance(o, Gate) and (self.c, self.x, self.y) == (o.c, o.x, o.y)
    def __hash__(self): return hash((self.c, self.x, self.y))
    def __repr__(self): return "gate(%r, %r, %r)" % (self.c, self.x, self.y)


def block_get(m, b):
    r0, c0, nr, nc = b
    if r0 < 0 or c0 < 0 or r0 + nr > m.r or c0 + nc > m.c:
        raise OutOfBounds("block (%d,%d,%d,%d) outside a %dx%d matrix" % (r0, c0, nr, nc, m.r, m.c))
    return Mat(nr, nc, [m.at(r0 + i, c0 + j) for i in range(nr) for j in range(nc)])


def proj(v, k):
    if isinstance(v, Gate):
        return vite(v.c, proj(v.x, k), proj(v.y, k))
    if isinstance(k, tuple):
        if k[0] == "blk":
            if not isinstance(v, Mat):
                raise Und("block of a non-matrix")
            return block_get(v, k[1:])
        if k[0] == "el":
            if not isinstance(v, Mat):
                raise Und("coefficient of %s" % type(v).__name__)
            if not (0 <= k[1] < v.r and 0 <= k[2] < v.c):
                raise OutOfBounds("coefficient (%d,%d) of a %dx%d matrix" % (k[1], k[2], v.r, v.c))
            return v.at(k[1], k[2])
        if k[0] == "T":
            return mtrans(v)
        if k[0] == "diag":
            n = min(v.r, v.c)
            return Mat(n, 1, [v.at(i, i) for i in range(n)])
        if k[0] == "map":               # a matrix view of a sequence (offset, rows, columns, row major)
            _, off, r, c, rm = k
            n = len(v.e)
            if isinstance(v, Mat):
                v = Seq([proj(v, i) for i in range(n)])
            if off < 0 or off + r * c > n:
                raise OutOfBounds("map of %dx%d entries from %d on %d elements" % (r, c, off, n))
            return Mat(r, c, [v.e[off + (i * c + j if rm else j * r + i)] for i in range(r) for j in range(c)])
        if k[0] == "sel":               # selected rows and columns
            _, ri, ci = k
            if any(not 0 <= i < v.r for i in ri) or any(not 0 <= j < v.c for j in ci):
                raise OutOfBounds("selected entries outside of a %dx%d matrix" % (v.r, v.c))
            return Mat(len(ri), len(ci), [v.at(i, j) for i in ri for j in ci])
        if k[0] == "row_of":
            raise Und("row_of")
    if isinstance(k, int):
        if isinstance(v, Seq):
            if not 0 <= k < len(v.e):
                raise OutOfBounds("index %d of a sequence of %d elements" % (k, len(v.e)))
            return v.e[k]
        if isinstance(v, Mat):
            if v.r == 1 or v.c == 1:
                if not 0 <= k < len(v.e):
                    raise OutOfBounds("coefficient %d of a vector of %d" % (k, len(v.e)))
                return v.e[k]
            i, j = k % v.r, k // v.r
            return v.at(i, j)
        if isinstance(v, Opq):
            return Opq(*v.key, k)
        if isinstance(v, Str):
            return ord(v.s[k]) if k < len(v.s) else 0
        if k == 0:
            return v
    if isinstance(k, str):
        if isinstance(v, Obj):
            return v.f.get(k, UN)
        if isinstance(v, Opq):
            return Opq(*v.key, k)
        if isinstance(v, Seq) and k in ("first", "second"):
            return v.e[0 if k == "first" else 1]
    if v is UN:
        raise Und("projection of an uninitialised value")
    raise Und("projection %r of %s" % (k, type(v).__name__))


def inject(v, k, x):
    """v with component k replaced by x"""
    if isinstance(k, tuple):
        if k[0] == "blk":
            r0, c0, nr, nc = k[1:]
            if r0 < 0 or c0 < 0 or r0 + nr > v.r or c0 + nc > v.c:
                raise OutOfBounds("block write (%d,%d,%d,%d) outside a %dx%d matrix" % (r0, c0, nr, nc, v.r, v.c))
            if not isinstance(x, Mat):
                raise Und("block assigned a non-matrix")
            if (x.r, x.c) != (nr, nc):
                if (x.c, x.r) == (nr, nc) and 1 in (nr, nc):
                    x = mtrans(x)
                else:
                    raise Und("block shape mismatch %dx%d <- %dx%d" % (nr, nc, x.r, x.c))
            e = list(v.e)
            for i in range(nr):
                for j in range(nc):
                    e[(r0 + i) * v.c + c0 + j] = x.at(i, j)
            return Mat(v.r, v.c, e, v.dyn)
        if k[0] == "el":
            if not isinstance(v, Mat):
                raise Und("coefficient write into %s" % type(v).__name__)
            if not (0 <= k[1] < v.r and 0 <= k[2] < v.c):
                raise OutOfBounds("coefficient write (%d,%d) of a %dx%d matrix" % (k[1], k[2], v.r, v.c))
            e = list(v.e)
            e[k[1] * v.c + k[2]] = x
            return Mat(v.r, v.c, e, v.dyn)
        if k[0] == "T":
            return mtrans(x)
        if k[0] == "diag":
            e = list(v.e)
            for i in range(min(v.r, v.c)):
                e[i * v.c + i] = x.e[i]
            return Mat(v.r, v.c, e, v.dyn)
        if k[0] == "map":
            _, off, r, c, rm = k
            if off < 0 or off + r * c > len(v.e):
                raise OutOfBounds("map of %dx%d entries from %d on %d elements" % (r, c, off, len(v.e)))
            for i in range(r):
                for j in range(c):
                    v = inject(v, off + (i * c + j if rm else j * r + i), x.at(i, j))
            return v
        if k[0] == "sel":
            for a, i in enumerate(k[1]):
                for b, j in enumerate(k[2]):
                    v = inject(v, ("el", i, j), x.at(a, b))
            return v
    if isinstance(k, int):
        if isinstance(v, Seq):
            if not 0 <= k < len(v.e):
                raise OutOfBounds("write to index %d of a sequence of %d elements" % (k, len(v.e)))
            e = list(v.e)
            e[k] = x
            return Seq(e)
        if isinstance(v, Mat):
            if v.r == 1 or v.c == 1:
                if not 0 <= k < len(v.e):
                    raise OutOfBounds("write to coefficient %d of a vector of %d" % (k, len(v.e)))
                e = list(v.e)
                e[k] = x
                return Mat(v.r, v.c, e, v.dyn)
            return inject(v, ("el", k % v.r, k // v.r), x)
        if isinstance(v, Gate):
            return Gate(v.c, inject(v.x, k, x), inject(v.y, k, x))
        if k == 0:
            return x
    if isinstance(k, str):
        if isinstance(v, Obj):
            f = dict(v.f)
            f[k] = x
            return Obj(v.cls, f)
        if isinstance(v, Seq) and k in ("first", "second"):
            return inject(v, 0 if k == "first" else 1, x)
        if v is UN:
            return Obj("?", {k: x})
    raise Und("write of component %r of %s" % (k, type(v).__name__))


class OutOfBounds(Exception):
    """a definite out-of-bounds access with constant index"""


def mtrans(v):
    if not isinstance(v, Mat):
        raise Und("transpose of %s" % type(v).__name__)
    return Mat(v.c, v.r, [v.at(i, j) for j in range(v.c) for i in range(v.r)])


def mmap(f, a):
    return Mat(a.r, a.c, [f(num(x)) for x in a.e])


def mzip(f, a, b):
    if (a.r, a.c) != (b.r, b.c):
        raise ShapeError("%dx%d vs %dx%d" % (a.r, a.c, b.r, b.c))
    return Mat(a.r, a.c, [f(num(x), num(y)) for x, y in zip(a.e, b.e)])


class Singular(Exception):
    pass


class ShapeError(Exception):
    pass


MEASURE = None      # domain of the integrals (meas.Measure) while an operator is analysed


def mmul(a, b):
    if MEASURE is not None:
        a, b = MEASURE.product(a, b)
    if a.c != b.r:
        if a.c == 1 and a.r == 1:
            return mmap(lambda x: alg.mul(num(a.e[0]), x), b)
        raise ShapeError("product of %dx%d and %dx%d" % (a.r, a.c, b.r, b.c))
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = 0
            for k in range(a.c):
                s = alg.add(s, alg.mul(num(a.at(i, k)), num(b.at(k, j))))
            out.append(s)
    return Mat(a.r, b.c, out)


def mdet(m):
    n = m.r
    if n != m.c:
        raise ShapeError("determinant of %dx%d" % (m.r, m.c))
    if n == 0:
        return 1
    if n == 1:
        return num(m.e[0])
    if n > 4:
        raise Und("determinant of size %d" % n)
    s = 0
    for j in range(n):
        x = num(m.at(0, j))
        if isinstance(x, CONST) and x == 0:
            continue
        minor = Mat(n - 1, n - 1, [m.at(i, k) for i in range(1, n) for k in range(n) if k != j])
        s = alg.add(s, alg.mul(x if j % 2 == 0 else alg.mul(-1, x), mdet(minor)))
    return s


def gauss(m, b, rank=False):
    """m^{-1} b by exact elimination, pivots must be decidably nonzero; with rank, some solution of a singular consistent system"""
    n = m.r
    if n != m.c:
        raise ShapeError("inverse of %dx%d" % (m.r, m.c))
    if b.r != n:
        raise ShapeError("%dx%d system with a right-hand side of %d rows" % (n, n, b.r))
    A = [[num(x) for x in m.e[i * n:(i + 1) * n]] + [num(x) for x in b.e[i * b.c:(i + 1) * b.c]] for i in range(n)]
    if rank and all(isinstance(x, CONST) for r in A for x in r[:n]):
        return some_solution(A, n, b.c)
    for c in range(n):
        cand = [r for r in range(c, n) if not (isinstance(A[r][c], CONST) and A[r][c] == 0)]
        if not cand:
            raise Singular("singular %dx%d system" % (n, n))
        p = min(cand, key=lambda r: (0 if isinstance(A[r][c], CONST) else 1 + len(A[r][c].n), r))
        A[c], A[p] = A[p], A[c]
        iv = alg.div(1, A[c][c])
        A[c] = [0 if j < c else (1 if j == c else alg.mul(iv, x)) for j, x in enumerate(A[c])]
        for r in range(n):
            f = A[r][c]
            if r == c or (isinstance(f, CONST) and f == 0):
                continue
            A[r] = [x if j < c or (isinstance(A[c][j], CONST) and A[c][j] == 0) else alg.sub(x, alg.mul(f, A[c][j])) for j, x in enumerate(A[r])]
    return Mat(n, b.c, [x for r in A for x in r[n:]])


def some_solution(A, n, k):
    """a solution of the constant system [A | b] with the free unknowns at zero"""
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, n) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        iv = Fraction(1) / A[r][c]
        A[r] = [alg.mul(iv, x) for x in A[r]]
        for i in range(n):
            f = A[i][c]
            if i != r and f != 0:
                A[i] = [alg.sub(x, alg.mul(f, y)) for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    if any(not alg.eq(x, 0) for a in A[r:] for x in a[n:]):
        raise Singular("inconsistent %dx%d system of rank %d" % (n, n, r))
    out = [[0] * k for _ in range(n)]
    for i, c in enumerate(piv):
        out[c] = A[i][n:]
    return Mat(n, k, [x for row in out for x in row])


def minv(m):
    if MEASURE is not None:
        m = MEASURE.reduce_mat(m)
    n = m.r
    if n > 3:
        return gauss(m, Mat(n, n, [1 if i == j else 0 for i in range(n) for j in range(n)]))
    d = mdet(m)
    out = []
    for i in range(n):
        for j in range(n):
            mm = Mat(n - 1, n - 1, [m.at(a, b) for a in range(n) for b in range(n) if a != j and b != i])
            x = mdet(mm)
            out.append(alg.div(alg.mul((-1) ** (i + j), x), d))
    return Mat(n, n, out)


def veq(a, b):
    """definite structural/algebraic equality of two abstract values"""
    if isinstance(a, (int, Fraction, E)) and isinstance(b, (int, Fraction, E)):
        return alg.eq(a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return (a.r, a.c) == (b.r, b.c) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return len(a.e) == len(b.e) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.f.keys() == b.f.keys() and all(veq(a.f[k], b.f[k]) for k in a.f)
    return a == b


class Flow:
    __slots__ = ("g", "k", "v", "h")
    def __init__(self, g, k, v, h): self.g, self.k, self.v, self.h = g, k, v, h


class Frame:
    __slots__ = ("env", "this", "fn")
    def __init__(self, env, this, fn): self.env, self.this, self.fn = env, this, fn


class Interp:
    def __init__(self, tu, overrides=None, peel=3000, depth=60):
        import models
        self.tu = tu
        self.heap = {}
        self.n = 0
        self.genv = {}
        self.positive = None        # variables known to be positive
        self.pospoly = None         # polynomials known to be positive
        self.frames = []
        self.known = {}          # path facts: B -> bool
        self.path = TRUE
        self.throws = []
        self.ov = overrides or {}
        self.files = None           # name -> lines of tokens, for code that reads files
        self.models = models.MODELS
        self.eigen = models.eigen_call
        self.stdmod = models.std_call
        self.peel, self.maxdepth = peel, depth
        self.visited = set()     # functions analysed
        self.trace = []
        self.limit_steps = 4000000
        self.steps = 0

    # ---------------------------------------------------------------- heap
    def new(self, v):
        self.n += 1
        self.heap[self.n] = v
        return Loc(self.n)

    def rd(self, loc):
        if isinstance(loc, LIte):
            return vite(loc.c, self.rd(loc.x), self.rd(loc.y))
        if loc is None:
            raise Und("null dereference")
        v = self.heap[loc.a]
        for k in loc.p:
            if isinstance(v, Loc):       # reference stored in an aggregate
                v = self.rd(v)
            v = proj(v, k)
        if isinstance(v, Loc):
            v = self.rd(v)
        return v

    def wr(self, loc, x):
        if isinstance(loc, LIte):
            self.wr(loc.x, vite(loc.c, x, self.rd(loc.x)))
            self.wr(loc.y, vite(loc.c, self.rd(loc.y), x))
            return
        if loc is None:
            raise Und("null store")

        def go(v, p):
            if isinstance(v, Loc):
                self.wr(v.sub(*p) if p else v, x)
                return v
            if not p:
                if isinstance(v, Mat) and isinstance(x, Mat) and v.dyn is not None:
                    return fit(x, v.dyn)
                return x
            return inject(v, p[0], go(proj(v, p[0]), p[1:]))
        self.heap[loc.a] = go(self.heap[loc.a], loc.p)

    # ---------------------------------------------------------------- types
    def default(self, t):
        """value of a default-initialised object of type t"""
        t = strip_t(t)
        if self.files is not None and t.startswith("std::basic_ifstream<"):
            return streams.stream([], False)
        if is_int_t(t) or FLT_T.match(t) or t.endswith("*"):
            return UN
        if t.endswith("]"):
            m = re.match(r"(.*?)((\[\d+\])+)$", t)
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
            base = m.group(1).strip()

            def build(ds):
                return self.default(base) if not ds else Seq([build(ds[1:]) for _ in range(ds[0])])
            return build(dims)
        if t.startswith("std::array<"):
            a = split_targs(t)
            return Seq([self.default(a[0]) for _ in range(int(a[1].rstrip("ULul")))])
        if t.startswith(("std::vector<", "std::list<", "std::deque<", "std::set<", "std::map<", "std::initializer_list<")):
            return Seq([])
        if t.startswith(("std::pair<", "std::tuple<")):
            return Seq([self.default(x) for x in split_targs(t)])
        if t.startswith(("std::basic_string<", "std::string")):
            return Str("")
        if t.startswith("std::optional<"):
            return Obj("std::optional", {"has": FALSE, "v": UN})
        if t.startswith("std::complex<"):
            return UN
        if re.match(r"Eigen::(Matrix|Array)<", t):
            d = mat_dims(t)
            r, c = d if d else (-1, -1)
            rr, cc = max(r, 0), max(c, 0)
            return Mat(rr, cc, [UN] * (rr * cc), (r, c))
        rec = self.tu.recbyd.get(t)
        if rec is not None:
            return self.rec_default(rec)
        return UN

    def rec_default(self, rec):
        f = {}
        for bt in rec["bases"]:
            b = self.tu.recbyd.get(strip_t(bt))
            if b is not None:
                v = self.rec_default(b)
                if isinstance(v, Obj):
                    f.update(v.f)
            else:
                v = self.default(bt)
                if v is not UN:
                    f["<base>"] = v
        for x in rec["fields"]:
            f[x["n"]] = self.default(self.tu.T(x["t"]))
        return Obj(rec["d"], f)

    # ---------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.limit_steps:
            raise Und("analysis budget exceeded")

    def exec(self, s):
        """-> list of Flow ; a single normal flow is returned as None"""
        if s is None:
            return None
        self.tick()
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        try:
            if m:
                return m(s)
            self.ev(s, void=True)
            return None
        except Thrown as t:
            return [Flow(TRUE, "thr", t.val, self.heap)]

    def s_blk(self, s):
        return self.seq(s["s"])

    def seq(self, stmts):
        outs = []
        guard = TRUE
        known0, path0 = self.known, self.path
        try:
            for st in stmts:
                fl = self.exec(st)
                if fl is None:
                    continue
                norm = [f for f in fl if f.k == "norm"]
                for f in fl:
                    if f.k != "norm":
                        outs.append(Flow(alg.b_and(guard, f.g), f.k, f.v, f.h))
                if not norm:
                    return outs
                g = self.merge_flows(norm)
                if g is not TRUE:
                    guard = alg.b_and(guard, g)
                    self.learn(g)
            if not outs:
                return None
            outs.append(Flow(guard, "norm", None, self.heap))
            return outs
        finally:
            self.known, self.path = known0, path0

    def merge_flows(self, fl):
        """merge same-kind flows into self.heap; returns the disjunction of their guards"""
        g = fl[0].g
        h = fl[0].h
        for f in fl[1:]:
            h = self.merge_heap(g, h, f.h)
            g = alg.b_or(g, f.g)
        self.heap = h
        return g

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        for a, v in h1.items():
            if a not in h2:
                out[a] = v
            else:
                w = h2[a]
                if w is not v:
                    out[a] = vite(c, v, w)
        return out

    def learn(self, b, val=True):
        self.known = dict(self.known)
        self._learn(b, val)
        self.path = alg.b_and(self.path, b if val else alg.b_not(b))

    def _learn(self, b, val):
        if b.op == "not":
            return self._learn(b.args[0], not val)
        if b.op == "and" and val:
            for x in b.args:
                self._learn(x, True)
            return
        if b.op != "const":
            self.known[b] = val

    def resolve(self, b):
        """simplify under path facts"""
        if b.op == "const":
            return b
        if self.positive and b.op in ("lt0", "eq0"):
            r = alg.sign_under(b, self.positive)
            if r is not None:
                return alg.b_const(r)
        if self.pospoly and b.op in ("lt0", "eq0") and b not in self.known:
            r = alg.sign_by(b, self.pospoly)
            if r is not None:
                return alg.b_const(r)
        if not self.known:
            return b
        if b in self.known:
            return alg.b_const(self.known[b])
        if b.op == "not":
            r = self.resolve(b.args[0])
            return alg.b_not(r)
        if b.op == "and":
            r = TRUE
            for x in b.args:
                r = alg.b_and(r, self.resolve(x))
            return r
        if b.op == "lt0":
            # e<0 known false and  -e<0 ...
            o = alg.lt(alg.mul(-1, b.args[0]), 0)
            if self.known.get(o) is True:
                return FALSE
            q = alg.eqb(b.args[0], 0)
            if self.known.get(q) is True:
                return FALSE
        if b.op == "eq0":
            for z in (b.args[0], alg.mul(-1, b.args[0])):
                if self.known.get(alg.lt(z, 0)) is True:
                    return FALSE
        return b

    def branch(self, c, fx, fy):
        """run fx / fy (thunks returning flows) under condition c"""
        c = self.resolve(c)
        if c is TRUE:
            return fx()
        if c is FALSE:
            return fy()
        h0 = self.heap
        known0, path0 = self.known, self.path
        outs = []
        for cond, th in ((c, fx), (alg.b_not(c), fy)):
            self.heap = dict(h0)
            self.known, self.path = known0, path0
            self.learn(cond)
            fl = th()
            if fl is None:
                fl = [Flow(TRUE, "norm", None, self.heap)]
            for f in fl:
                outs.append(Flow(alg.b_and(cond, f.g), f.k, f.v, f.h))
        self.known, self.path = known0, path0
        # join same-kind flows
        by = {}
        for f in outs:
            by.setdefault(f.k, []).append(f)
        res = []
        for k, fl in by.items():
            res.append(self.join(k, fl))
        if len(res) == 1 and res[0].k == "norm" and res[0].g is TRUE:
            self.heap = res[0].h
            return None
        # keep self.heap consistent for normal continuation (done by seq via merge_flows)
        return res

    def join(self, k, fl):
        g, v, h = fl[0].g, fl[0].v, fl[0].h
        for f in fl[1:]:
            v = vite(g, v, f.v) if (v is not None or f.v is not None) else None
            h = self.merge_heap(g, h, f.h)
            g = alg.b_or(g, f.g)
        return Flow(g, k, v, h)

    def s_decl(self, s):
        for v in s["v"]:
            self.declare(v)
        return None

    def declare(self, v):
        fr = self.frames[-1]
        t = self.tu.T(v["t"])
        if v.get("static"):
            # function-local static: constant tables only
            if v["id"] not in self.genv:
                self.genv[v["id"]] = self.new(self.init_value(v, t))
            fr.env[v["id"]] = self.genv[v["id"]]
            return
        if t.rstrip().endswith("&") and "init" in v or VIEW.match(strip_t(t)) and v.get("init") is not None:
            loc = self.lv(v["init"])
            fr.env[v["id"]] = loc
        elif t.startswith(("std::function<", "const std::function<")) and v.get("init") is not None:
            loc = fr.env[v["id"]] = self.new(UN)            # a closure may refer to itself
            self.wr(loc, self.init_value(v, t))
        else:
            val = self.init_value(v, t)
            loc = self.new(val)
            fr.env[v["id"]] = loc
        if "binds" in v:
            base = self.rd(loc)
            for i, b in enumerate(v["binds"]):
                if isinstance(base, Obj):
                    rec = self.tu.recbyd.get(base.cls)
                    names = [x["n"] for x in rec["fields"]] if rec else list(base.f)
                    l = loc.sub(names[i])
                else:
                    l = loc.sub(i)
                fr.env[b["id"]] = l
                if "hid" in b:
                    fr.env[b["hid"]] = l

    def init_value(self, v, t):
        if "init" not in v or v["init"] is None:
            return self.default(t)
        x = self.ev(v["init"])
        if isinstance(x, Seq) and strip_t(t).endswith("*"):       # an array decays to the address of its first element
            return Ptr(self.lv(v["init"]).sub(0))
        return self.conv(x, t)

    def conv(self, x, t):
        """adapt value x to declared type t (matrix shapes)"""
        if isinstance(x, Mat):
            tt = strip_t(t)
            if re.match(r"Eigen::(Matrix|Array)<", tt):
                return fit(x, mat_dims(tt))
            if tt in ("double", "float", "long double"):
                return num(x)
        if isinstance(x, Comma):
            return self.rd(x.loc)
        return x

    def s_if(self, s):
        if "init" in s:
            f = self.exec(s["init"])
            if f is not None:
                raise Und("abrupt if-init")
        if "cvar" in s:
            self.declare(s["cvar"])
        c = tobool(self.ev(s["c"]))
        return self.branch(c, lambda: self.exec(s.get("x")), lambda: self.exec(s.get("y")))

    def loop(self, cond, body, inc, post=False):
        outs = []
        guard = TRUE
        known0, path0 = self.known, self.path
        it = 0
        first = post
        try:
            while True:
                if not first:
                    c = TRUE if cond is None else self.resolve(tobool(self.ev(cond)))
                    if c is FALSE:
                        break
                    if c is not TRUE:
                        r = self.sym_loop(cond, body, inc, c)
                        raise Und("loop bound is not a constant: %r" % (c,))
                first = False
                it += 1
                if it > self.peel:
                    raise Und("loop peeled %d times" % it)
                fl = self.exec(body)
                stop = False
                if fl is not None:
                    norm = []
                    for f in fl:
                        if f.k in ("norm", "cont"):
                            norm.append(f)
                        elif f.k == "brk":
                            outs.append(Flow(alg.b_and(guard, f.g), "norm", None, f.h))
                        else:
                            outs.append(Flow(alg.b_and(guard, f.g), f.k, f.v, f.h))
                    if not norm:
                        stop = True
                        guard = FALSE
                    else:
                        g = self.merge_flows(norm)
                        if g is not TRUE:
                            guard = alg.b_and(guard, g)
                            self.learn(g)
                if stop:
                    break
                if inc is not None:
                    self.ev(inc, void=True)
        finally:
            self.known, self.path = known0, path0
        if not outs:
            return None
        if guard is not FALSE:
            outs.append(Flow(guard, "norm", None, self.heap))
        by = {}
        for f in outs:
            by.setdefault(f.k, []).append(f)
        res = [self.join(k, fl) for k, fl in by.items()]
        if len(res) == 1 and res[0].k == "norm":
            self.heap = res[0].h
            return None
        return res

    def sym_loop(self, cond, body, inc, c):
        return None

    def s_for(self, s):
        if "init" in s:
            self.exec(s["init"])
        return self.loop(s.get("c"), s.get("x"), s.get("inc"))

    def s_while(self, s):
        if "cvar" in s:
            raise Und("while with a declaration")
        return self.loop(s["c"], s.get("x"), None)

    def s_do(self, s):
        return self.loop(s["c"], s.get("x"), None, post=True)

    def s_rfor(self, s):
        rloc = self.lv(s["r"])
        seq = self.rd(rloc)
        h = self.ov.get("range")
        if h is not None:
            r = h(self, s, seq)
            if r is not NotImplemented:
                return r
        if isinstance(seq, Mat) and (seq.r == 1 or seq.c == 1):
            n = len(seq.e)
        elif isinstance(seq, Seq):
            n = len(seq.e)
        else:
            if "bs" in s:
                for k in ("rs", "bs", "es"):
                    self.exec(s[k])
                return self.loop(s["c"], {"k": "blk", "s": [s["lvs"], s["x"]]} if "x" in s else s["lvs"], s["inc"])
            raise Und("range-for over %s" % type(seq).__name__)
        var = s["v"]
        byref = self.tu.T(var["t"]).rstrip().endswith("&")
        outs, guard = [], TRUE
        known0, path0 = self.known, self.path
        try:
            for i in range(n):
                l = rloc.sub(i)
                self.bindvar(var, l if byref else self.new(self.rd(l)))
                fl = self.exec(s.get("x"))
                if fl is None:
                    continue
                norm = []
                for f in fl:
                    if f.k in ("norm", "cont"):
                        norm.append(f)
                    elif f.k == "brk":
                        outs.append(Flow(alg.b_and(guard, f.g), "norm", None, f.h))
                    else:
                        outs.append(Flow(alg.b_and(guard, f.g), f.k, f.v, f.h))
                if not norm:
                    guard = FALSE
                    break
                g = self.merge_flows(norm)
                if g is not TRUE:
                    guard = alg.b_and(guard, g)
                    self.learn(g)
        finally:
            self.known, self.path = known0, path0
        if not outs:
            return None
        if guard is not FALSE:
            outs.append(Flow(guard, "norm", None, self.heap))
        by = {}
        for f in outs:
            by.setdefault(f.k, []).append(f)
        res = [self.join(k, fl) for k, fl in by.items()]
        if len(res) == 1 and res[0].k == "norm":
            self.heap = res[0].h
            return None
        return res

    def bindvar(self, var, loc):
        fr = self.frames[-1]
        fr.env[var["id"]] = loc
        if "binds" in var:
            base = self.rd(loc)
            for i, b in enumerate(var["binds"]):
                if isinstance(base, Obj):
                    rec = self.tu.recbyd.get(base.cls)
                    names = [x["n"] for x in rec["fields"]] if rec else list(base.f)
                    l = loc.sub(names[i])
                else:
                    l = loc.sub(i)
                fr.env[b["id"]] = l
                if "hid" in b:
                    fr.env[b["hid"]] = l

    def s_switch(self, s):
        if "cvar" in s:
            self.declare(s["cvar"])
        c = num(self.ev(s["c"]))
        body = s["x"]
        items = []          # flat list of (labels, stmt)

        def flat(st):
            if st is None:
                return
            if st["k"] == "blk":
                for x in st["s"]:
                    flat(x)
                return
            labels = []
            while st is not None and st["k"] in ("case", "default"):
                labels.append(int(st["cv"]) if st["k"] == "case" else None)
                st = st.get("x")
            if st is not None and st["k"] == "blk" and labels:
                items.append((labels, st))
            else:
                items.append((labels, st))
        for x in (body["s"] if body["k"] == "blk" else [body]):
            labels = []
            st = x
            while st is not None and st["k"] in ("case", "default"):
                labels.append(int(st["cv"]) if st["k"] == "case" else None)
                st = st.get("x")
            items.append((labels, st))

        def run_from(i):
            fl = self.seq([st for _, st in items[i:] if st is not None])
            return self.end_break(fl)
        vals = [(v, i) for i, (ls, _) in enumerate(items) for v in ls if v is not None]
        dflt = next((i for i, (ls, _) in enumerate(items) if None in ls), None)
        if isinstance(c, CONST):
            for v, i in vals:
                if v == c:
                    return run_from(i)
            return run_from(dflt) if dflt is not None else None

        def chain(j):
            if j == len(vals):
                return run_from(dflt) if dflt is not None else None
            v, i = vals[j]
            return self.branch(alg.eqb(c, v), lambda: run_from(i), lambda: chain(j + 1))
        return chain(0)

    def end_break(self, fl):
        if fl is None:
            return None
        by = {}
        for f in fl:
            k = "norm" if f.k == "brk" else f.k
            by.setdefault(k, []).append(f)
        res = [self.join(k, x) for k, x in by.items()]
        if len(res) == 1 and res[0].k == "norm":
            self.heap = res[0].h
            return None
        return res

    def s_ret(self, s):
        fr = self.frames[-1]
        if "x" not in s or s["x"] is None:
            return [Flow(TRUE, "ret", None, self.heap)]
        rt = fr.fn.get("rts", "") if fr.fn else ""
        if rt.rstrip().endswith("&") or VIEW.match(strip_t(rt)):
            v = self.lv(s["x"])
        else:
            v = self.conv(self.ev(s["x"]), rt)
        return [Flow(TRUE, "ret", v, self.heap)]

    def s_break(self, s):
        return [Flow(TRUE, "brk", None, self.heap)]

    def s_continue(self, s):
        return [Flow(TRUE, "cont", None, self.heap)]

    def s_null_s(self, s):
        return None

    def s_try(self, s):
        h = s.get("h") or []
        try:
            fl = self.exec(s["x"])
        except Thrown:
            if len(h) != 1:
                raise Und("exception that one of several handlers may catch") if h else Thrown(None, None)
            return self.exec(h[0])
        if len(h) == 1 and fl and all(f.k == "thr" for f in fl) and len(fl) == 1:
            self.heap = fl[0].h
            return self.exec(h[0])
        if h and fl is not None and any(f.k == "thr" for f in fl):
            raise Und("exception caught under a symbolic condition")
        return fl

    def s_label(self, s):
        return self.exec(s.get("x"))

    def s_sother(self, s):
        raise Und("statement " + s.get("cls", "?"))

    # ---------------------------------------------------------------- calls
    def call_fn(self, f, args, this=None, env0=None):
        """inline function record f with args (Loc for reference params, value otherwise)"""
        if len(self.frames) > self.maxdepth:
            raise Und("inlining depth exceeded")
        self.visited.add(f["fn"])
        f.setdefault("rts", self.tu.T(f.get("rt", -1)))
        env = dict(env0) if env0 else {}
        for p, a in zip(f["params"], args):
            t = self.tu.T(p["t"])
            if t.rstrip().endswith("&") or isinstance(a, (Loc, LIte)) and VIEW.match(strip_t(t)):
                env[p["id"]] = a if isinstance(a, (Loc, LIte)) else self.new(a)
            else:
                v = self.rd(a) if isinstance(a, (Loc, LIte)) else a
                env[p["id"]] = self.new(self.conv(v, t))
        for p in f["params"][len(args):]:
            if p.get("dv") is not None:
                self.frames.append(Frame(env, this, f))
                try:
                    env[p["id"]] = self.new(self.ev(p["dv"]))
                finally:
                    self.frames.pop()
            else:
                raise Und("missing argument")
        self.frames.append(Frame(env, this, f))
        known0, path0 = self.known, self.path
        try:
            if f.get("ct"):
                self.run_inits(f, this)
            fl = self.exec(f.get("body"))
        finally:
            self.frames.pop()
            self.known, self.path = known0, path0
        if fl is None:
            return None
        rets = [x for x in fl if x.k == "ret"]
        norm = [x for x in fl if x.k == "norm"]
        thr = [x for x in fl if x.k == "thr"]
        good = rets + norm
        for t in thr:
            self.throws.append((alg.b_and(self.path, t.g), t.v, f["q"]))
        if not good:
            raise Thrown(thr[0].v, f["q"])
        r = good[0]
        for x in good[1:]:
            v = None
            if r.v is not None or x.v is not None:
                v = vite(r.g, r.v if r.v is not None else UN, x.v if x.v is not None else UN)
            r = Flow(alg.b_or(r.g, x.g), "ret", v, self.merge_heap(r.g, r.h, x.h))
        self.heap = r.h
        if thr:
            self.learn(alg.b_not(thr[0].g) if len(thr) == 1 else alg.b_not(_or_all([t.g for t in thr])))
        return r.v

    def run_inits(self, f, this):
        for i in f.get("inits", []):
            x = i["x"]
            if "m" in i:
                rec = self.rd(this)
                t = None
                if isinstance(rec, Obj):
                    r = self.tu.recbyd.get(f["cls"])
                    if r:
                        for fd in r["fields"]:
                            if fd["n"] == i["m"]:
                                t = self.tu.T(fd["t"])
                if x is None:
                    continue
                if t and t.rstrip().endswith("&"):
                    self.wr_ref(this.sub(i["m"]), self.lv(x))
                    continue
                v = self.ev(x)
                if v is None:
                    continue
                if t:
                    v = self.conv(v, t)
                self.wr(this.sub(i["m"]), v)
            elif "base" in i or "deleg" in i:
                if x is None:
                    continue
                if x["k"] == "ctor":
                    self.construct_into(x, this)
                else:
                    v = self.ev(x)
                    if isinstance(v, Obj):
                        o = self.rd(this)
                        ff = dict(o.f)
                        ff.update(v.f)
                        self.wr(this, Obj(o.cls, ff))

    def wr_ref(self, loc, target):
        o = self.heap[loc.a]
        def go(v, p):
            if not p:
                return target
            return inject(v, p[0], go(proj(v, p[0]), p[1:]))
        self.heap[loc.a] = go(o, loc.p)

    def construct_into(self, x, this):
        f = self.tu.byid.get(x.get("fn"))
        if f is None or "body" not in f:
            if x.get("dflt") or not x["a"]:
                return
            v = self.ev(x)
            if isinstance(v, Obj):
                o = self.rd(this)
                ff = dict(o.f)
                ff.update(v.f)
                self.wr(this, Obj(o.cls, ff))
            else:
                o = self.rd(this)
                if isinstance(o, Obj):
                    ff = dict(o.f)
                    ff["<base>"] = v
                    self.wr(this, Obj(o.cls, ff))
            return
        if x.get("copy") and f.get("impl"):
            v = self.ev(x["a"][0])
            o = self.rd(this)
            ff = dict(o.f)
            if isinstance(v, Obj):
                ff.update(v.f)
            self.wr(this, Obj(o.cls, ff))
            return
        self.call_fn(f, self.args_for(f, x["a"]), this)

    def args_for(self, f, argnodes):
        out = []
        for i, a in enumerate(argnodes):
            t = self.tu.T(f["params"][i]["t"]) if i < len(f["params"]) else ""
            if t.rstrip().endswith("&") or VIEW.match(strip_t(t)):
                out.append(self.lv(a))
            elif t.rstrip().endswith(("*", "*const")) and "[" in self.tu.T(a.get("t", -1)):
                v = self.ev(a)
                out.append(Ptr(self.lv(a).sub(0)) if isinstance(v, Seq) else v)
            else:
                out.append(self.ev(a))
        return out

    # ---------------------------------------------------------------- expressions
    def lv(self, e):
        """evaluate to a location"""
        k = e["k"]
        if k == "ref":
            return self.lookup(e)
        if k == "mem":
            if e.get("meth"):
                raise Und("bound member function")
            b = e["b"]
            if e.get("arrow"):
                p = self.ev(b)
                base = self.deref(p)
            else:
                base = self.lv(b)
            return base.sub(e["n"])
        if k == "idx":
            return self.index(e)
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["x"]))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e)
            return self.lv(e["x"])
        if k == "asg":
            self.ev(e)
            return self.lv(e["x"])
        if k == "cond":
            c = self.resolve(tobool(self.ev(e["c"])))
            if c is TRUE:
                return self.lv(e["x"])
            if c is FALSE:
                return self.lv(e["y"])
            return LIte(c, self.lv(e["x"]), self.lv(e["y"]))
        if k == "call":
            r = self.call(e, want="loc")
            if isinstance(r, (Loc, LIte)):
                return r
            return self.new(r)
        if k == "cast":
            if e.get("ck") in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
                return self.lv(e["x"])
        if k == "bin" and e["op"] == ",":
            self.ev(e["x"], void=True)
            return self.lv(e["y"])
        if k == "ctor" and VIEW.match(strip_t(self.tu.T(e["t"]))):
            import models
            return models.view(self, e, strip_t(self.tu.T(e["t"])))
        if k == "this":
            raise Und("lvalue this")
        return self.new(self.ev(e))

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.loc is None:
                raise Und("null pointer dereference")
            return p.loc
        if isinstance(p, (Loc, LIte)):
            return p
        if isinstance(p, Obj) and p.cls == "std::optional":
            return self.new(p.f["v"])
        if isinstance(p, Opq):
            return self.new(Opq(*p.key, "*"))
        raise Und("dereference of %s" % type(p).__name__)

    def index(self, e):
        t = ""
        xb = e["x"]
        tb = self.tu.T(xb.get("t", -1))
        i = num(self.ev(e["y"]))
        if tb.endswith("]") or re.search(r"\]\s*(const)?$", tb) or (xb["k"] in ("ref", "mem", "idx") and "[" in tb and tb.rstrip().endswith("]")):
            base = self.lv(xb)
            return self.sub_index(base, i)
        p = self.ev(xb)
        if isinstance(p, Seq):
            return self.sub_index(self.new(p), i)
        return self.ptr_add(p, i).loc

    def sub_index(self, base, i):
        if not isinstance(i, int):
            if isinstance(i, Fraction) or isinstance(i, E):
                return self.sym_index(base, i)
        return base.sub(i)

    def sym_index(self, base, i):
        """read-only access with a gated index: expand over the (finite) sequence"""
        seq = self.rd(base)
        n = len(seq.e) if isinstance(seq, (Seq, Mat)) else None
        if n is None or n == 0 or n > 64:
            raise Und("symbolic index")
        vals = const_cases(i)
        if vals is None:
            raise Und("symbolic index %s" % alg.show(i))
        loc = None
        for lits, v in reversed(vals):
            if not isinstance(v, int):
                raise Und("symbolic index")
            g = TRUE
            for b, t in lits.items():
                g = alg.b_and(g, b if t else alg.b_not(b))
            l = base.sub(v)
            loc = l if loc is None else LIte(g, l, loc)
        return loc

    def ptr_add(self, p, i):
        if not isinstance(p, Ptr):
            raise Und("pointer arithmetic on %s" % type(p).__name__)
        if not isinstance(i, int):
            raise Und("symbolic pointer offset")
        l = p.loc
        if isinstance(p, RPtr):
            return RPtr(self.ptr_add(Ptr(l), -i).loc)
        if isinstance(l, LIte):
            return Ptr(LIte(l.c, self.ptr_add(Ptr(l.x), i).loc, self.ptr_add(Ptr(l.y), i).loc))
        if l is None:
            raise Und("null pointer arithmetic")
        if l.p and isinstance(l.p[-1], int):
            return Ptr(Loc(l.a, l.p[:-1] + (l.p[-1] + i,)))
        if i == 0:
            return p
        return Ptr(Loc(l.a, l.p + (i,)))

    def lookup(self, e):
        i = e["id"]
        fr = self.frames[-1] if self.frames else None
        if fr and i in fr.env:
            return fr.env[i]
        if i in self.genv:
            return self.genv[i]
        g = self.tu.gbyid.get(i)
        if g is not None:
            h = self.ov.get(g["q"])
            if h is not None:
                loc = self.new(h(self))
            elif "init" in g and (g.get("const") or g.get("cexpr") or True):
                self.frames.append(Frame({}, None, None))
                try:
                    v = self.init_value({"init": g["init"]}, self.tu.T(g["t"]))
                finally:
                    self.frames.pop()
                loc = self.new(v)
            else:
                loc = self.new(Opq(g["q"]))
            self.genv[i] = loc
            return loc
        if "cv" in e:
            return self.new(int(e["cv"]))
        if e.get("d") in ("global", "slocal"):
            loc = self.new(Opq(e.get("q", e["n"])))
            self.genv[i] = loc
            return loc
        raise Und("unbound variable %s" % e["n"])

    def ev(self, e, void=False):
        self.tick()
        if e is None:
            return None
        k = e["k"]
        if "cv" in e and k not in ("call", "asg"):
            t = self.tu.T(e.get("t", -1))
            if k != "cond":
                v = int(e["cv"])
                return alg.b_const(v != 0) if strip_t(t) == "bool" else v
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Und("expression " + k + " " + e.get("cls", ""))
        return m(e)

    def e_int(self, e): return int(e["v"])
    def e_flt(self, e):
        x = e.get("x", "")
        m = re.match(r"^([0-9.]+(?:[eE][-+]?\d+)?)[fFlL]?$", x)
        if m:
            return alg.norm_const(Fraction(m.group(1)))
        return alg.norm_const(Fraction(repr(e["v"])) if e["v"] is not None else Fraction(0))
    def e_bool(self, e): return alg.b_const(e["v"])
    def e_str(self, e): return Str(e.get("v", ""))
    def e_null(self, e): return NULLP
    def e_const(self, e): raise Und("constant")
    def e_opaque(self, e): return self.ev(e["x"])
    def e_dep(self, e): raise Und("dependent expression")

    def e_zero(self, e):
        return zero_of(self, self.tu.T(e["t"]))

    def e_ref(self, e):
        if e.get("d") == "func":
            return Obj("<fn>", {"fn": e.get("fn"), "q": e.get("q")})
        if e.get("d") == "enum":
            return int(e["cv"])
        return self.rd(self.lookup(e))

    def e_mem(self, e):
        if e.get("meth"):
            raise Und("bound member function")
        b = e["b"]
        if not e.get("arrow") and b["k"] in ("call", "ctor", "ilist"):
            v = self.ev(b)
            if isinstance(v, (Loc, LIte)):
                return self.rd(v.sub(e["n"]))
            return proj(v, e["n"])
        return self.rd(self.lv(e))

    def e_this(self, e):
        t = self.frames[-1].this
        if t is None:
            raise Und("this")
        return Ptr(t)

    def e_idx(self, e): return self.rd(self.index(e))

    def e_rw(self, e): return self.ev(e["sem"])

    def e_cond(self, e):
        c = self.resolve(tobool(self.ev(e["c"])))
        if c is TRUE:
            return self.ev(e["x"])
        if c is FALSE:
            return self.ev(e["y"])
        res = []

        def th(x):
            def run():
                res.append(self.ev(x))
                return None
            return run
        fl = self.branch(c, th(e["x"]), th(e["y"]))
        if len(res) == 2:
            return vite(c, res[0], res[1])
        raise Und("conditional expression with abrupt flow")

    def e_throw(self, e):
        v = None
        raise Thrown(v, None)

    def e_lambda(self, e):
        fr = self.frames[-1]
        env = {}
        this = None
        for c in e.get("caps", []):
            if c.get("n") == "this":
                this = fr.this
                continue
            if "init" in c:
                env[c["id"]] = self.new(self.ev(c["init"])) if c.get("by") != "ref" else self.lv(c["init"])
            elif c["id"] in fr.env:
                env[c["id"]] = fr.env[c["id"]] if c.get("by") == "ref" else self.new(self.rd(fr.env[c["id"]]))
        return Lam(e, env, this)

    def call_lambda(self, lam, args, fn=None):
        f = lam.node if "body" in lam.node else self.tu.byid.get(fn)
        if f is None:
            insts = lam.node.get("insts", [])
            named = [g for g in insts if g.get("id") == fn] or insts
            if not named or (len(named) > 1 and len({str(g["body"]) for g in named}) > 1):
                raise Und("generic lambda without a body")
            f = named[0]
        f2 = dict(f)
        f2.setdefault("params", [])
        f2["q"] = "<lambda>"
        f2["rts"] = self.tu.T(f.get("rt", -1))
        f2.setdefault("fn", -1)
        f2.pop("ct", None)
        return self.call_fn(f2, args, lam.this, lam.env)

    def call_value(self, fv, args):
        """call a callable value with values/Locs"""
        if isinstance(fv, Lam):
            return self.deloc(self.call_lambda(fv, args))
        if isinstance(fv, Obj) and fv.cls == "<fn>":
            f = self.tu.byid.get(fv.f["fn"])
            if f is None:
                raise Und("call of %s" % fv.f.get("q"))
            return self.deloc(self.call_fn(f, args))
        if callable(fv):
            return fv(self, args)
        raise Und("call of %s" % type(fv).__name__)

    def deloc(self, r):
        return self.rd(r) if isinstance(r, (Loc, LIte)) else r

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = e["x"]
            if x["k"] == "ref" and x.get("d") == "func":
                return self.ev(x)
            return Ptr(self.lv(x))
        if op == "*":
            return self.rd(self.deref(self.ev(e["x"])))
        if op in ("++", "--"):
            l = self.lv(e["x"])
            v = self.rd(l)
            d = 1 if op == "++" else -1
            nv = self.ptr_add(v, d) if isinstance(v, Ptr) else wrap(alg.add(num(v), d), self.tu.T(e["t"]))
            self.wr(l, nv)
            return v if e.get("post") else nv
        v = self.ev(e["x"])
        if op == "-":
            return alg.mul(-1, num(v))
        if op == "+":
            return num(v)
        if op == "!":
            return alg.b_not(tobool(v))
        raise Und("unary " + op)

    def binop(self, op, x, y, t):
        if isinstance(x, Gate):
            return vite(x.c, self.binop(op, x.x, y, t), self.binop(op, x.y, y, t))
        if isinstance(y, Gate):
            return vite(y.c, self.binop(op, x, y.x, t), self.binop(op, x, y.y, t))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ("==", "!="):
                r = alg.b_const(x == y)
                return r if op == "==" else alg.b_not(r)
            if op == "+":
                return self.ptr_add(x, num(y)) if isinstance(x, Ptr) else self.ptr_add(y, num(x))
            if op == "-":
                if isinstance(y, Ptr):
                    return self.ptr_diff(x, y)
                return self.ptr_add(x, alg.mul(-1, num(y)))
            if op in ("<", ">", "<=", ">="):
                d = self.ptr_diff(x, y)
                return self.binop(op, d, 0, t)
        if op == "<=>":
            return alg.ite(self.binop("<", x, y, t), -1, alg.ite(self.binop("==", x, y, t), 0, 1))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(x, Opq) or isinstance(y, Opq) or isinstance(x, Str) or isinstance(y, Str):
                if isinstance(x, Str) and isinstance(y, Str):
                    r = {"==": x.s == y.s, "!=": x.s != y.s, "<": x.s < y.s}.get(op)
                    if r is not None:
                        return alg.b_const(r)
                if op == "==" and x == y:
                    return TRUE
                if op == "!=" and x == y:
                    return FALSE
                if isinstance(x, Str) or isinstance(y, Str):
                    b = B("opq", "==", *sorted((repr(x), repr(y))))
                    return b if op == "==" else alg.b_not(b)
            x, y = num(x), num(y)
            b = {"<": lambda: alg.lt(x, y), ">": lambda: alg.lt(y, x), "<=": lambda: alg.le(x, y),
                 ">=": lambda: alg.le(y, x), "==": lambda: alg.eqb(x, y), "!=": lambda: alg.b_not(alg.eqb(x, y))}[op]()
            return self.resolve(b)
        x, y = num(x), num(y)
        if op in ("+", "-", "*"):
            r = alg.add(x, y) if op == "+" else alg.sub(x, y) if op == "-" else alg.mul(x, y)
            return wrap(r, t) if isinstance(r, int) and (r < 0 or r >= 2 ** 32) else r
        if op == "/":
            if is_int_t(t):
                if isinstance(x, int) and isinstance(y, int):
                    if y == 0:
                        raise Und("integer division by zero")
                    q = abs(x) // abs(y)
                    return q if (x >= 0) == (y >= 0) else -q
                if isinstance(y, CONST) and y == 1:
                    return x
                return alg.fn("idiv", x, y)
            try:
                return alg.div(x, y)
            except alg.DivZero:
                if alg.eq(x, 0):
                    return alg.nan()
                raise Und("division by zero")
        if op == "%":
            if isinstance(x, int) and isinstance(y, int) and y:
                r = abs(x) % abs(y)
                return r if x >= 0 else -r
            return alg.fn("mod", x, y)
        if op in ("<<", ">>", "&", "|", "^") and isinstance(x, int) and isinstance(y, int):
            return {"<<": x << y if y >= 0 else 0, ">>": x >> y if y >= 0 else 0, "&": x & y, "|": x | y, "^": x ^ y}[op]
        if op in ("<<", ">>", "&", "|", "^"):
            return alg.fn("bit" + op, x, y)
        raise Und("operator " + op)

    def ptr_diff(self, x, y):
        if isinstance(x, RPtr) and isinstance(y, RPtr):
            return self.ptr_diff(Ptr(y.loc), Ptr(x.loc))
        lx, ly = x.loc, y.loc
        if isinstance(lx, Loc) and isinstance(ly, Loc) and lx.a == ly.a and lx.p[:-1] == ly.p[:-1] and lx.p and ly.p \
                and isinstance(lx.p[-1], int) and isinstance(ly.p[-1], int):
            return lx.p[-1] - ly.p[-1]
        if isinstance(lx, LIte):
            return alg.ite(lx.c, self.ptr_diff(Ptr(lx.x), y), self.ptr_diff(Ptr(lx.y), y))
        if isinstance(ly, LIte):
            return alg.ite(ly.c, self.ptr_diff(x, Ptr(ly.x)), self.ptr_diff(x, Ptr(ly.y)))
        raise Und("difference of unrelated pointers")

    def e_bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["x"], void=True)
            return self.ev(e["y"])
        if op in ("&&", "||"):
            x = self.resolve(tobool(self.ev(e["x"])))
            if op == "&&" and x is FALSE:
                return FALSE
            if op == "||" and x is TRUE:
                return TRUE
            if x.op == "const":
                return tobool(self.ev(e["y"]))
            k0, p0 = self.known, self.path
            self.learn(x, op == "&&")
            h0 = dict(self.heap)
            y = tobool(self.ev(e["y"]))
            self.known, self.path = k0, p0
            if self.heap != h0:
                pass
            return alg.b_and(x, y) if op == "&&" else alg.b_or(x, y)
        x, y = self.ev(e["x"]), self.ev(e["y"])
        if isinstance(x, Seq) and "[" in self.tu.T(e["x"].get("t", -1)):
            x = Ptr(self.lv(e["x"]).sub(0))
        return self.binop(op, x, y, self.tu.T(e["t"]))

    def e_asg(self, e):
        op = e["op"]
        if op == "=":
            v = self.ev(e["y"])
            l = self.lv(e["x"])
            self.wr(l, v)
            return v
        l = self.lv(e["x"])
        v = self.binop(op[:-1], self.rd(l), self.ev(e["y"]), self.tu.T(e["t"]))
        if op == "/=" and False:
            pass
        self.wr(l, v)
        return v

    def e_cast(self, e):
        v = self.ev(e["x"])
        ck = e.get("ck")
        t = self.tu.T(e["t"])
        if ck in ("FloatingToIntegral",):
            n = num(v)
            if isinstance(n, CONST):
                return int(n)
            return alg.fn("trunc", n)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return tobool(v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            if isinstance(v, (Mat,)):
                return num(v)
            if isinstance(v, (B, Opq)):
                return num(v)
            return wrap(v, t, True) if isinstance(v, int) and ck == "IntegralCast" else v
        return v

    def e_ilist(self, e):
        t = self.tu.T(e["t"])
        tt = strip_t(t)
        rec = self.tu.recbyd.get(tt)
        if rec is not None:
            names = [x["n"] for x in rec["fields"]]
            f = {}
            vals = list(e["a"])
            nb = len(rec["bases"])
            for b in vals[:nb] if len(vals) >= nb + len(names) or nb else []:
                bv = self.ev(b)
                if isinstance(bv, Obj):
                    f.update(bv.f)
            vals = vals[nb:]
            for nme, fd, x in zip(names, rec["fields"], vals):
                ft = self.tu.T(fd["t"])
                f[nme] = self.lv(x) if ft.rstrip().endswith("&") else self.conv(self.ev(x), ft)
            for fd in rec["fields"][len(vals):]:
                f[fd["n"]] = self.ev(fd["init"]) if fd.get("init") else zero_of(self, self.tu.T(fd["t"]))
            return Obj(rec["d"], f)
        if tt.startswith("std::array<") or re.match(r"std::__array_traits|", tt) and tt.startswith("std::array"):
            a = split_targs(tt)
            n = int(a[1].rstrip("ULul"))
            # brace elision: {{...}} or {...}
            if len(e["a"]) == 1 and e["a"][0]["k"] == "ilist" and self.tu.T(e["a"][0].get("t", -1)).rstrip().endswith("]"):
                return self.ev(e["a"][0])
            els = [self.ev(x) for x in e["a"]]
            if len(els) == 1 and isinstance(els[0], Seq) and n == len(els[0].e) and e["a"][0]["k"] == "ilist":
                return els[0]
            while len(els) < n:
                els.append(zero_of(self, a[0]))
            return Seq(els)
        if tt.endswith("]"):
            n = e.get("n", len(e["a"]))
            els = [self.ev(x) for x in e["a"]]
            m = re.match(r"(.*?)\s*\[\d+\](.*)$", tt)
            inner = (m.group(1) + m.group(2)) if m else ""
            while len(els) < n:
                els.append(zero_of(self, inner))
            return Seq(els)
        if is_int_t(tt) or FLT_T.match(tt) or tt.endswith("*"):
            return self.ev(e["a"][0]) if e["a"] else 0
        return Seq([self.ev(x) for x in e["a"]])

    def e_new(self, e):
        if e.get("arr"):
            n = self.ev(e["n"]) if e.get("n") else None
            if not isinstance(n, int) or n < 0 or n > 200000:
                raise Und("new[] of a non-constant size")
            t = strip_t(self.tu.T(e["t"]))
            t = t[:-1].strip() if t.endswith("*") else t
            if e.get("x") and e["x"]["k"] not in ("ctor",):
                return Ptr(self.new(Seq([zero_of(self, t)] * n)).sub(0))
            return Ptr(self.new(Seq([self.default(t) for _ in range(n)])).sub(0))
        v = self.ev(e["x"]) if e.get("x") else UN
        return Ptr(self.new(v))

    def e_delete(self, e):
        return None

    def e_other(self, e):
        raise Und("expression " + e.get("cls", "?"))

    def e_blk(self, e):
        raise Und("block as expression")

    def e_ctor(self, e):
        t = strip_t(self.tu.T(e["t"]))
        q = e.get("q", "")
        h = self.ov.get(("ctor", short(q))) or self.ov.get("ctor:" + t)
        if h is not None:
            r = h(self, e, t)
            if r is not NotImplemented:
                return r
        if self.files is not None:
            r = streams.ctor(self, q, e, t)
            if r is not NotImplemented:
                return r
        f = self.tu.byid.get(e.get("fn"))
        if e.get("copy") and (f is None or f.get("impl")):
            return self.ev(e["a"][0])
        if f is not None and "body" in f and not (f.get("impl") and e.get("copy")):
            rec = self.tu.recbyd.get(f["cls"])
            if rec is not None:
                o = self.rec_default(rec)
                # default member initialisers are listed in `inits` by the front end
                loc = self.new(o)
                self.call_fn(f, self.args_for(f, e["a"]), loc)
                return self.rd(loc)
        r = self.stdmod(self, "ctor", q, e, t)
        if r is not NotImplemented:
            return r
        rec = self.tu.recbyd.get(t)
        if rec is not None and not e["a"]:
            o = self.rec_default(rec)
            for fd in rec["fields"]:
                if fd.get("init"):
                    o.f[fd["n"]] = self.ev(fd["init"])
                elif "std::" not in self.tu.T(fd["t"]) or True:
                    pass
            return o
        raise Und("constructor %s" % (q or t))

    def make(self, t, argnodes):
        """value of T(args...) when the constructor call itself is hidden in library code"""
        t = strip_t(t)
        rec = self.tu.recbyd.get(t)
        if rec is None:
            if not argnodes:
                return zero_of(self, t)
            if t.startswith(("std::", "Eigen::")):
                r = self.stdmod(self, "ctor", t, {"k": "ctor", "t": -1, "a": list(argnodes), "q": t}, t)
                if r is not NotImplemented:
                    return r
            elif len(argnodes) == 1 and (is_int_t(t) or FLT_T.match(t)):
                return self.deloc(self.ev(argnodes[0]))
            raise Und("construction of %s" % t)
        cand = [f for f in self.tu.functions if f.get("ct") and f.get("cls") == t and "body" in f
                and not f.get("impl") and len(f["params"]) >= len(argnodes)
                and all(p.get("dv") is not None for p in f["params"][len(argnodes):])]
        if len(cand) > 1:
            at = [strip_t(self.tu.T(a["t"])) for a in argnodes]
            cand = [f for f in cand if all(strip_t(self.tu.T(p["t"]).rstrip("&").rstrip()) == y for p, y in zip(f["params"], at))]
        if len(cand) == 1:
            loc = self.new(self.rec_default(rec))
            self.call_fn(cand[0], self.args_for(cand[0], argnodes), loc)
            return self.rd(loc)
        if argnodes:
            if len(argnodes) == 1 and strip_t(self.tu.T(argnodes[0]["t"])) == t:
                return self.deloc(self.ev(argnodes[0]))
            raise Und("construction of %s" % t)
        o = self.rec_default(rec)
        for fd in rec["fields"]:
            if fd.get("init"):
                o.f[fd["n"]] = self.ev(fd["init"])
        return o

    def e_call(self, e):
        r = self.call(e, want="val")
        if isinstance(r, (Loc, LIte)):
            return self.rd(r)
        return r

    def call(self, e, want):
        q = e.get("q", "")
        h = self.ov.get(q) or self.ov.get(short(q) + "()")
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        if self.files is not None:
            r = streams.strto(self, q, e) if q in streams.STRTO else streams.call(self, q, short(q), e, want)
            if r is not NotImplemented:
                return r
        f = self.tu.byid.get(e.get("fn"))
        op = e.get("op")
        # lambdas / callables
        if op == "()" and e["a"]:
            a0 = e["a"][0]
            fv = None
            if "(lambda" in self.tu.T(a0.get("t", -1)) or "::(anonymous class)" in q or "lambda" in q:
                fv = self.ev(a0)
                if isinstance(fv, Lam):
                    g = fv.node if "body" in fv.node else f
                    if g is None:
                        gs = [x for x in fv.node.get("insts", []) if x.get("id") == e.get("fn")]
                        if not gs:
                            raise Und("generic lambda")
                        g = gs[0]
                    return self.call_lambda(fv, self.args_for(g, e["a"][1:]), e.get("fn"))
        if f is not None and "body" in f and not q.startswith(("std::", "Eigen::")):
            if e.get("copyasg"):
                pass
            if f.get("cls") and not f.get("sm"):
                if op:
                    argn = e["a"][1:]
                    this = self.lv(e["a"][0])
                elif e.get("mcall"):
                    argn = e["a"]
                    this = self.deref(self.ev(e["o"])) if e.get("arrow") else self.lv(e["o"])
                else:
                    argn, this = e["a"], None
                if f.get("impl") and op == "=":
                    self.wr(this, self.ev(argn[0]))
                    return this
                if f.get("vm") and not e.get("qual"):
                    f = self.devirt(f, this)
                return self.call_fn(f, self.args_for(f, argn), this)
            return self.call_fn(f, self.args_for(f, e["a"]))
        cls = e.get("cls", "")
        if ("Eigen::" in q and not q.startswith("std::")) or ("Eigen::" in cls and not cls.startswith(("std::", "__gnu_cxx::"))):
            r = self.eigen(self, e, want)
            if r is not NotImplemented:
                return r
        r = self.stdmod(self, "call", q, e, want)
        if r is not NotImplemented:
            return r
        if op == "=" and len(e["a"]) == 2:     # implicit assignment
            l = self.lv(e["a"][0])
            v = self.ev(e["a"][1])
            if isinstance(v, Refs):
                raise Und("tie on rhs")
            self.wr(l, v)
            return l
        if "callee" in e:
            fv = self.ev(e["callee"])
            return self.call_value(fv, [self.ev(a) for a in e["a"]])
        if q == "":
            raise Und("unresolved call")
        raise Und("call of %s" % q)

    def devirt(self, f, this):
        v = self.rd(this)
        if isinstance(v, Obj) and v.cls != f.get("cls"):
            for g in self.tu.functions:
                if g.get("cls") == v.cls and short(g["q"]) == short(f["q"]) and len(g["params"]) == len(f["params"]):
                    return g
        return f


def _or_all(bs):
    r = FALSE
    for b in bs:
        r = alg.b_or(r, b)
    return r


def const_cases(i):
    """[(lits, int)] for a gated integer, or None"""
    cs = alg.cases([i], 6)
    if cs is None:
        return None
    out = []
    for lits in cs:
        v = alg.assume(i, lits)
        if not isinstance(v, int):
            return None
        out.append((lits, v))
    return out


def zero_of(I, t):
    t = strip_t(t)
    if is_int_t(t) or FLT_T.match(t):
        return FALSE if t == "bool" else 0
    if t.endswith("*"):
        return NULLP
    v = I.default(t)

    def z(v):
        if v is UN:
            return 0
        if isinstance(v, Seq):
            return Seq([z(x) for x in v.e])
        if isinstance(v, Obj):
            return Obj(v.cls, {k: z(x) for k, x in v.f.items()})
        return v
    return z(v)


def fit(x, dims):
    """give matrix value x the static shape of its destination"""
    if dims is None:
        return x
    r, c = dims
    if (r in (-1, x.r)) and (c in (-1, x.c)):
        return Mat(x.r, x.c, x.e, dims)
    if (r in (-1, x.c)) and (c in (-1, x.r)) and 1 in (x.r, x.c):
        return Mat(x.c, x.r, x.e, dims)
    if x.r == 0 or x.c == 0:
        return Mat(x.r, x.c, x.e, dims)
    raise ShapeError("%dx%d value assigned to a %sx%s matrix" % (x.r, x.c, r, c))
