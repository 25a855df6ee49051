"""Abstract transfer functions of the library calls (Eigen, libstdc++) met in the analysed code."""
import re
from fractions import Fraction
import alg
from alg import CONST, E, B, TRUE, FALSE
from front import short

MODELS = {}


def _vg():
    import vg
    return vg


def cls_dims(e, I):
    for s in (e.get("cls", ""), I.tu.T(e.get("t", -1))):
        m = re.search(r"Eigen::(Matrix|Array)<", s)
        if m:
            import vg
            d = vg.mat_dims(s[m.start():])
            if d:
                return d
    return None


def ints(I, args):
    import vg
    out = []
    for a in args:
        v = vg.num(I.ev(a))
        if not isinstance(v, int):
            raise vg.Und("symbolic matrix index/size %s" % (alg.show(v) if isinstance(v, E) else v,))
        out.append(v)
    return out


def targ_ints(e):
    out = []
    for a in e.get("ta", []):
        try:
            out.append(int(a))
        except (ValueError, TypeError):
            pass
    return out


def matval(I, x):
    """value of expression node/Loc as a matrix"""
    import vg
    v = x
    if isinstance(v, (vg.Loc, vg.LIte)):
        v = I.rd(v)
    if isinstance(v, vg.Comma):
        v = I.rd(v.loc)
    return v


def eigen_binary(I, op, x, y, e):
    import vg
    Mat, num = vg.Mat, vg.num
    if isinstance(x, vg.Obj) and "<base>" in x.f:
        x = x.f["<base>"]
    if isinstance(y, vg.Obj) and "<base>" in y.f:
        y = y.f["<base>"]
    if isinstance(x, vg.Gate):
        return vg.vite(x.c, eigen_binary(I, op, x.x, y, e), eigen_binary(I, op, x.y, y, e))
    if isinstance(y, vg.Gate):
        return vg.vite(y.c, eigen_binary(I, op, x, y.x, e), eigen_binary(I, op, x, y.y, e))
    mx, my = isinstance(x, Mat), isinstance(y, Mat)
    arr = "ArrayBase" in e.get("q", "") or "ArrayBase" in e.get("cls", "") or "ArrayWrapper" in e.get("cls", "") or "Eigen::Array<" in e.get("cls", "")
    if op in ("+", "-"):
        f = alg.add if op == "+" else alg.sub
        if mx and my:
            return vg.mzip(f, x, y)
        if arr and mx:
            return vg.mmap(lambda t: f(t, num(y)), x)
        if arr and my:
            return vg.mmap(lambda t: f(num(x), t), y)
    if op == "*":
        if mx and my:
            if isinstance(getattr(x, "dyn", None), str):
                pass
            return vg.mzip(alg.mul, x, y) if arr else vg.mmul(x, y)
        if mx:
            s = num(y)
            return vg.mmap(lambda t: alg.mul(t, s), x)
        s = num(x)
        return vg.mmap(lambda t: alg.mul(s, t), y)
    if op == "/":
        if mx and my:
            return vg.mzip(alg.div, x, y)
        if mx:
            s = num(y)
            try:
                return vg.mmap(lambda t: alg.div(t, s), x)
            except alg.DivZero:
                raise vg.Und("division by zero")
        s = num(x)
        return vg.mmap(lambda t: alg.div(s, t), y)
    if op in ("==", "!="):
        r = TRUE
        for a, b in zip(x.e, y.e):
            r = alg.b_and(r, alg.eqb(num(a), num(b)))
        return r if op == "==" else alg.b_not(r)
    return NotImplemented


def fill_mat(r, c, v, dims=None):
    import vg
    return vg.Mat(r, c, [v] * (r * c), dims)


def lvalue_path(I, e, name, obj_val, args, ta):
    """path component selected by an Eigen accessor, or None"""
    import vg
    R, C = obj_val.r, obj_val.c
    vec = R == 1 or C == 1
    if name in ("operator()", "coeff", "coeffRef", "operator[]", "insert"):
        raw = [I.deloc(I.ev(a)) for a in args]
        if any(not isinstance(x, (int, Fraction, E, B, vg.Gate)) for x in raw):
            sz = [R * C] if len(raw) == 1 else [R, C]
            sel = [select_ix(I, x, k) for x, k in zip(raw, sz)]
            if any(x is not None for x in sel):
                sel = [[last_ix(I, x, k)] if y is None else y for x, y, k in zip(raw, sel, sz)]
                if not all(isinstance(i, int) for x in sel for i in x):
                    raise vg.Und("symbolic matrix index")
                if len(sel) == 1:
                    sel = [sel[0], [0]] if C == 1 else [[0], sel[0]]
                return ("sel", tuple(sel[0]), tuple(sel[1]))
            raw = [last_ix(I, x, k) for x, k in zip(raw, sz)]
        ix = [vg.num(x) for x in raw]
        if not all(isinstance(i, int) for i in ix):
            return ("sym", ix)
        if len(ix) == 1:
            return ix[0]
        return ("el", ix[0], ix[1])
    if name in ("x", "y", "z", "w"):
        return "xyzw".index(name)
    if name == "row":
        return ("blk", ints(I, args)[0], 0, 1, C)
    if name == "col":
        return ("blk", 0, ints(I, args)[0], R, 1)
    if name == "block":
        a = ints(I, args)
        if len(a) == 2:
            return ("blk", a[0], a[1], ta[0], ta[1])
        return ("blk", a[0], a[1], a[2], a[3])
    if name in ("head", "tail", "segment"):
        a = ints(I, args)
        n = ta[0] if ta and (len(a) == (1 if name == "segment" else 0)) else None
        if name == "segment":
            st = a[0]
            n = n if n is not None else a[1]
        else:
            n = n if n is not None else a[0]
            st = 0 if name == "head" else R * C - n
        return ("blk", st, 0, n, 1) if C == 1 and not (R == 1 and C == 1 and False) else ("blk", 0, st, 1, n)
    m = re.match(r"(topLeft|topRight|bottomLeft|bottomRight)Corner$", name)
    if m:
        a = ints(I, args)
        nr, nc = (a if len(a) == 2 else ta[:2])
        r0 = 0 if m.group(1).startswith("top") else R - nr
        c0 = 0 if m.group(1).endswith("Left") else C - nc
        return ("blk", r0, c0, nr, nc)
    if name in ("topRows", "bottomRows", "leftCols", "rightCols"):
        a = ints(I, args)
        n = a[0] if a else ta[0]
        return {"topRows": ("blk", 0, 0, n, C), "bottomRows": ("blk", R - n, 0, n, C),
                "leftCols": ("blk", 0, 0, R, n), "rightCols": ("blk", 0, C - n, R, n)}[name]
    if name in ("middleRows", "middleCols"):
        a = ints(I, args)
        n = a[1] if len(a) > 1 else ta[0]
        return ("blk", a[0], 0, n, C) if name == "middleRows" else ("blk", 0, a[0], R, n)
    if name == "transpose":
        return ("T",)
    if name == "diagonal":
        return ("diag",)
    return None


SAME = {"noalias", "derived", "matrix", "array", "conjugate", "const_cast_derived", "real", "nestedExpression"}
ELEM = {"square": lambda I, x: alg.mul(x, x), "cube": lambda I, x: alg.powi(x, 3), "inverse": lambda I, x: alg.div(1, x), "cwiseAbs2": lambda I, x: alg.mul(x, x),
        "abs2": lambda I, x: alg.mul(x, x), "exp": lambda I, x: alg.fn("exp", x), "log": lambda I, x: alg.fn("log", x), "cwiseSqrt": lambda I, x: alg.sqrt_(x),
        "cwiseAbs": lambda I, x: alg.abs_(x), "sin": lambda I, x: alg.fn("sin", x), "cos": lambda I, x: alg.fn("cos", x),
        "cwiseSign": lambda I, x: alg.ite(I.resolve(alg.lt(x, 0)), -1, alg.ite(I.resolve(alg.lt(0, x)), 1, 0))}


def eigen_scalar(op, a, b):
    return {"+": alg.add, "-": alg.sub, "*": alg.mul, "/": alg.div}[op](a, b)


def select_ix(I, v, n):
    """positions an index object selects among n; None when it is not one"""
    vg = _vg()
    if isinstance(v, vg.Obj) and v.cls == "<eig>ix":
        k, a = v.f["k"].s, [last_ix(I, x, n) for x in v.f["a"].e]
        if k == "all":
            return list(range(n))
        st = a[2] if len(a) > 2 else a[1] if k == "lastN" and len(a) > 1 else 1
        if not all(isinstance(x, int) for x in a):
            raise vg.Und("symbolic index range")
        if k == "seq":
            return list(range(a[0], a[1] + (1 if st > 0 else -1), st))
        if k == "seqN":
            return [a[0] + i * st for i in range(a[1])]
        return [n - 1 - (a[0] - 1 - i) * st for i in range(a[0])]
    if isinstance(v, vg.Opq) and v.key and isinstance(v.key[0], str) and v.key[0].endswith("::all"):
        return list(range(n))
    if isinstance(v, vg.Seq):
        return [vg.num(x) for x in v.e]
    return None


def last_ix(I, v, n):
    vg = _vg()
    if isinstance(v, vg.Opq) and v.key and isinstance(v.key[0], str) and v.key[0].endswith(("::last", "placeholders::last")):
        return n - 1
    return vg.num(v)


def eigen_call(I, e, want):
    import vg
    q = e.get("q", "")
    name = short(q)
    op = e.get("op")
    if op and not name.startswith("operator"):
        name = "operator" + op
    h = I.ov.get("eigen:" + name)
    if h is not None:
        r = h(I, e, want)
        if r is not NotImplemented:
            return r
    args = e["a"]
    ta = targ_ints(e)
    # static factories
    if e.get("sm"):
        d = cls_dims(e, I)
        a = None
        if name in ("LinSpaced", "NullaryExpr"):
            n = 1 if name == "NullaryExpr" else 2
            iv = ints(I, args[:-n])
            if name == "LinSpaced":
                if not iv and d and d[0] * d[1] > 0:
                    iv = [d[0] * d[1]]
                lo, hi = (vg.num(I.ev(x)) for x in args[-2:])
                k = iv[0]
                v = [hi if k == 1 else alg.add(lo, alg.mul(Fraction(i, k - 1), alg.sub(hi, lo))) for i in range(k)]
                return vg.Mat(k, 1, v) if d is None or d[1] == 1 else vg.Mat(1, k, v)
            f = I.ev(args[-1])
            r, c = iv if len(iv) == 2 else ((iv[0], 1) if d is None or d[1] == 1 else (1, iv[0])) if iv else d
            two = len(iv) == 2 or not iv and 1 not in (r, c)
            return vg.Mat(r, c, [vg.num(I.call_value(f, [i, j] if two else [i + j])) for i in range(r) for j in range(c)])
        if name in ("Zero", "Ones", "Identity", "Constant", "UnitX", "UnitY", "UnitZ", "Unit", "Random"):
            if name == "Constant":
                iv = ints(I, args[:-1])
            elif name == "Unit":
                iv = ints(I, args[:-1])
            else:
                iv = ints(I, args)
            if len(iv) == 2:
                r, c = iv
            elif len(iv) == 1:
                r, c = (iv[0], 1) if d is None or d[1] == 1 else (1, iv[0])
            elif d:
                r, c = d
            else:
                raise vg.Und("shape of %s" % name)
            if r < 0 or c < 0:
                raise vg.Und("shape of %s" % name)
            if name == "Zero":
                return fill_mat(r, c, 0)
            if name == "Ones":
                return fill_mat(r, c, 1)
            if name == "Constant":
                return fill_mat(r, c, vg.num(I.ev(args[-1])))
            if name == "Identity":
                return vg.Mat(r, c, [1 if i == j else 0 for i in range(r) for j in range(c)])
            if name.startswith("Unit"):
                k = "XYZ".index(name[4]) if len(name) > 4 else ints(I, args)[-1]
                return vg.Mat(r, c, [1 if i == k else 0 for i in range(r * c)])
        raise vg.Und("Eigen static %s" % name)
    # member / operator object
    if e.get("mcall"):
        on = e["o"]
        rest = args
    elif op:
        on = args[0]
        rest = args[1:]
    else:
        # free functions
        vals = [matval(I, I.ev(a)) for a in args]
        if name in ("seq", "seqN", "lastN"):
            return vg.Obj("<eig>ix", {"k": vg.Str(name), "a": vg.Seq(vals)})
        if name in ("abs", "sqrt"):
            f = alg.abs_ if name == "abs" else alg.sqrt_
            return vg.mmap(f, vals[0]) if isinstance(vals[0], vg.Mat) else f(vg.num(vals[0]))
        if name == "pow" and isinstance(vals[0], vg.Mat):
            n = vg.num(vals[1])
            return vg.mmap(lambda t: _pow(t, n), vals[0])
        if name in ("log", "exp"):
            return vg.mmap(lambda t: alg.fn(name, t), vals[0])
        if name in ("min", "max") and isinstance(vals[0], vg.Mat):
            return vg.mzip(lambda x, y: scalar_fn(I, "f" + name, [x, y]), vals[0], vals[1])
        raise vg.Und("Eigen function %s" % q)
    if op == "<<":
        l = I.ev(on)
        v = matval(I, I.ev(rest[0]))
        loc = I.lv(on)
        return comma_put(I, vg.Comma(loc, 0, 0, 0), v)
    if op == ",":
        c = I.ev(on)
        if not isinstance(c, vg.Comma):
            raise vg.Und("comma initialiser")
        return comma_put(I, c, matval(I, I.ev(rest[0])))
    if op in ("=", "+=", "-=", "*=", "/=") and on["k"] == "call" and short(on.get("q", "")) in ("colwise", "rowwise"):
        v = matval(I, I.ev(rest[0]))
        loc = I.lv(on["o"])
        m = I.rd(loc)
        col = short(on["q"]) == "colwise"
        if not isinstance(m, vg.Mat) or not isinstance(v, vg.Mat) or len(v.e) != (m.r if col else m.c):
            raise vg.Und("%s assignment" % short(on["q"]))
        I.wr(loc, vg.Mat(m.r, m.c, [v.e[i if col else j] if op == "=" else eigen_scalar(op[0], vg.num(m.at(i, j)), vg.num(v.e[i if col else j]))
                                    for i in range(m.r) for j in range(m.c)], m.dyn))
        return loc
    if op in ("=", "+=", "-=", "*=", "/="):
        v = matval(I, I.ev(rest[0]))
        loc = I.lv(on)
        if isinstance(v, vg.Obj) and "<base>" in v.f:
            v = v.f["<base>"]
        if op == "=":
            old = I.rd(loc)
            if isinstance(old, vg.Mat) and isinstance(v, (int, Fraction, E)) and "Array" in q:
                v = fill_mat(old.r, old.c, v, old.dyn)
            if isinstance(old, vg.Mat) and isinstance(v, vg.Mat) and old.dyn is not None:
                v = vg.fit(v, old.dyn)
            I.wr(loc, v)
        else:
            old = I.rd(loc)
            r = eigen_binary(I, op[0], old, v, e)
            if isinstance(r, vg.Mat) and isinstance(old, vg.Mat):
                r = vg.Mat(r.r, r.c, r.e, old.dyn)
            I.wr(loc, r)
        return loc
    if op in ("<", ">", "<=", ">=", "&&", "||") or op in ("==", "!=") and "ArrayBase" in q or op == "!" and rest == []:
        x = matval(I, I.ev(on))
        if not rest:
            return vg.mmap(lambda z: alg.b_not(vg.tobool(z)), x)
        y = matval(I, I.ev(rest[0]))
        if isinstance(x, vg.Mat) or isinstance(y, vg.Mat):
            m = x if isinstance(x, vg.Mat) else y
            g = lambda z, i: z.e[i] if isinstance(z, vg.Mat) else z
            if isinstance(x, vg.Mat) and isinstance(y, vg.Mat) and len(x.e) != len(y.e):
                raise vg.ShapeError("comparison of arrays of %d and %d entries" % (len(x.e), len(y.e)))
            return vg.Mat(m.r, m.c, [value_op(I, op, g(x, i), g(y, i)) for i in range(len(m.e))])
    if op in ("+", "-", "*", "/", "+=", "-=", "*=", "/=") and rest and on["k"] == "call" and short(on.get("q", "")) in ("colwise", "rowwise"):
        w = matval(I, I.ev(on))
        v = matval(I, I.ev(rest[0]))
        m = w.f["m"]
        col = w.cls.endswith("colwise")
        if len(v.e) != (m.r if col else m.c):
            raise vg.ShapeError("%s operation with a vector of %d on %dx%d" % (w.cls[5:], len(v.e), m.r, m.c))
        return vg.Mat(m.r, m.c, [eigen_scalar(op[0], vg.num(m.at(i, j)), vg.num(v.e[i if col else j])) for i in range(m.r) for j in range(m.c)], m.dyn)
    if op in ("+", "-", "*", "/", "==", "!="):
        if not rest:
            v = matval(I, I.ev(on))
            return vg.mmap(lambda t: alg.mul(-1, t), v)
        return eigen_binary(I, op, matval(I, I.ev(on)), matval(I, I.ev(rest[0])), e)
    if name == "rankUpdate" and on["k"] == "call" and short(on.get("q", "")) == "selfadjointView":
        loc = I.lv(on["o"])
        m, u = I.rd(loc), matval(I, I.ev(rest[0]))
        if len(rest) > 1 and isinstance(matval(I, I.ev(rest[1])), vg.Mat) or not isinstance(m, vg.Mat):
            raise vg.Und("rankUpdate")
        a = vg.num(I.ev(rest[1])) if len(rest) > 1 else 1
        up = vg.mmul(u, vg.mtrans(u))
        mode = targ_ints(on)[:1] or [1]
        keep = (lambda i, j: i >= j) if mode[0] & 1 else (lambda i, j: i <= j)
        I.wr(loc, vg.Mat(m.r, m.c, [alg.add(vg.num(m.at(i, j)), alg.mul(a, up.at(i, j))) if keep(i, j) else m.at(i, j) for i in range(m.r) for j in range(m.c)], m.dyn))
        return None
    # accessors
    okind = on["k"]
    lvable = okind in ("ref", "mem", "idx", "cast", "cond", "ctor") or (okind == "un" and on["op"] == "*") or (okind == "call")
    ol = None
    if e.get("mcall") and e.get("arrow"):
        ol = I.deref(I.ev(on))
        ov = I.rd(ol)
    elif okind == "call":
        r = I.call(on, want="loc")
        if isinstance(r, (vg.Loc, vg.LIte)):
            ol = r
            ov = I.rd(r)
        else:
            ov = r
    elif lvable:
        ol = I.lv(on)
        ov = I.rd(ol)
    else:
        ov = I.ev(on)
    ov = matval(I, ov)
    if isinstance(ov, vg.Obj) and "<base>" in ov.f:
        ov = ov.f["<base>"]
        if ol is not None:
            ol = ol.sub("<base>")
    if isinstance(ov, vg.Obj) and ov.cls == "<eig>triplet" and name in ov.f:
        return ov.f[name]
    if name in ("makeCompressed", "reserve", "prune") and isinstance(ov, vg.Mat):
        return None
    if name == "setFromTriplets":
        m = [0] * (ov.r * ov.c)
        for t in read_range(I, I.ev(rest[0]), I.ev(rest[1])):
            if isinstance(t, vg.Seq) and len(t.e) == 3:
                t = vg.Obj("<eig>triplet", {"row": vg.num(t.e[0]), "col": vg.num(t.e[1]), "value": t.e[2]})
            i, j = vg.num(t.f["row"]), vg.num(t.f["col"])
            if not (isinstance(i, int) and isinstance(j, int)):
                raise vg.Und("triplet at a symbolic position")
            if not (0 <= i < ov.r and 0 <= j < ov.c):
                raise vg.OutOfBounds("triplet (%d, %d) in a %dx%d matrix" % (i, j, ov.r, ov.c))
            m[i * ov.c + j] = alg.add(m[i * ov.c + j], vg.num(t.f["value"]))
        I.wr(ol, vg.Mat(ov.r, ov.c, m, ov.dyn))
        return None
    if isinstance(ov, vg.Obj) and ov.cls.startswith("<eig"):
        return solver_method(I, ov, name, rest, e, ol)
    if not isinstance(ov, vg.Mat):
        if isinstance(ov, vg.Gate):
            raise vg.Und("Eigen call on a gated matrix")
        raise vg.Und("Eigen %s on %s" % (name, type(ov).__name__))
    if name in SAME:
        return ol if ol is not None else ov
    k = lvalue_path(I, e, name, ov, rest, ta)
    if k is not None:
        if isinstance(k, tuple) and k[0] == "sym":
            return sym_coeff(I, ol, ov, k[1])
        if ol is not None:
            vg.proj(ov, k)        # bounds
            return ol.sub(k)
        return vg.proj(ov, k)
    num = vg.num
    if name in ("rows", "innerSize") and not rest:
        return ov.r
    if name == "cols":
        return ov.c
    if name == "size":
        return ov.r * ov.c
    if name in ("setZero", "setOnes", "setIdentity", "setConstant", "fill", "resize", "conservativeResize"):
        if name in ("fill", "setConstant") and len(rest) == 1:
            v = fill_mat(ov.r, ov.c, num(I.ev(rest[0])), ov.dyn)
        else:
            a = [(ov.r, ov.c)[k] if "NoChange" in I.tu.T(x.get("t", -1)) else ints(I, [x])[0] for k, x in enumerate(rest)]
            r, c = ov.r, ov.c
            if len(a) == 2:
                r, c = a
            elif len(a) == 1:
                r, c = (a[0], 1) if (ov.dyn is None or ov.dyn[1] == 1) else (1, a[0])
            if name == "setZero":
                v = fill_mat(r, c, 0, ov.dyn)
            elif name == "setOnes":
                v = fill_mat(r, c, 1, ov.dyn)
            elif name == "setIdentity":
                v = vg.Mat(r, c, [1 if i == j else 0 for i in range(r) for j in range(c)], ov.dyn)
            elif name == "resize" and (r, c) == (ov.r, ov.c):
                v = ov
            elif name == "conservativeResize":
                v = vg.Mat(r, c, [ov.at(i, j) if i < ov.r and j < ov.c else vg.UN for i in range(r) for j in range(c)], ov.dyn)
            else:
                v = vg.Mat(r, c, [vg.UN] * (r * c), ov.dyn)
        I.wr(ol, v)
        return ol
    if name in ("dot",):
        w = matval(I, I.ev(rest[0]))
        if len(w.e) != len(ov.e):
            raise vg.ShapeError("dot of %d and %d" % (len(ov.e), len(w.e)))
        s = 0
        for a, b in zip(ov.e, w.e):
            s = alg.add(s, alg.mul(num(a), num(b)))
        return s
    if name == "cross":
        w = matval(I, I.ev(rest[0]))
        a, b = [num(x) for x in ov.e], [num(x) for x in w.e]
        if len(a) != 3 or len(b) != 3:
            raise vg.Und("cross product of %d/%d vectors" % (len(a), len(b)))
        m = lambda i, j: alg.sub(alg.mul(a[i], b[j]), alg.mul(a[j], b[i]))
        return vg.Mat(ov.r, ov.c, [m(1, 2), m(2, 0), m(0, 1)])
    if name == "isDiagonal":
        # the default precision; a constant off-diagonal entry counts as zero below 1e-12 of the diagonal
        v = {(i, j): alg.numeric(num(ov.at(i, j))) for i in range(ov.r) for j in range(ov.c)}
        if all(x is not None for x in v.values()):
            top = max([abs(v[i, i]) for i in range(min(ov.r, ov.c))] or [0])
            return all(abs(x) <= top / 10**12 for (i, j), x in v.items() if i != j)
    if name in ("squaredNorm", "norm", "stableNorm"):
        s = 0
        for a in ov.e:
            s = alg.add(s, alg.mul(num(a), num(a)))
        return s if name == "squaredNorm" else alg.sqrt_(s)
    if name in ("normalized", "normalize"):
        s = 0
        for a in ov.e:
            s = alg.add(s, alg.mul(num(a), num(a)))
        n = alg.sqrt_(s)
        v = vg.mmap(lambda t: alg.div(t, n), ov)
        if name == "normalized":
            return v
        I.wr(ol, vg.Mat(v.r, v.c, v.e, ov.dyn))
        return None
    if name == "sum":
        s = 0
        for a in ov.e:
            s = alg.add(s, num(a))
        return s
    if name == "prod":
        s = 1
        for a in ov.e:
            s = alg.mul(s, num(a))
        return s
    if name == "trace":
        s = 0
        for i in range(min(ov.r, ov.c)):
            s = alg.add(s, num(ov.at(i, i)))
        return s
    if name == "determinant":
        return vg.mdet(ov)
    if name == "inverse":
        return vg.minv(ov)
    if name in ("adjoint",):
        return vg.mtrans(ov)
    if name in ELEM and not (name == "inverse" and "ArrayBase" not in q and "ArrayWrapper" not in q):
        return vg.mmap(lambda x: ELEM[name](I, num(x)), ov)
    if name == "eval":
        return ov
    if name in ("selfadjointView", "triangularView"):
        mode = ta[0] if ta else 1
        low = (mode & 1) == 1
        if name == "selfadjointView":
            return vg.Mat(ov.r, ov.c, [ov.at(max(i, j), min(i, j)) if low else ov.at(min(i, j), max(i, j)) for i in range(ov.r) for j in range(ov.c)], ov.dyn)
        unit, strict = mode & 4, mode & 8
        return vg.Mat(ov.r, ov.c, [(1 if unit else 0 if strict else ov.at(i, j)) if i == j else ov.at(i, j) if (i > j) == low else 0
                                   for i in range(ov.r) for j in range(ov.c)], ov.dyn)
    if name == "pow" and rest:
        n = num(I.ev(rest[0]))
        return vg.mmap(lambda t: _pow(num(t), n), ov)
    if name in ("cwiseMax", "cwiseMin", "max", "min") and rest:
        w = matval(I, I.ev(rest[0]))
        f = lambda x, y: scalar_fn(I, "fmax" if name.lower().endswith("max") else "fmin", [num(x), num(y)])
        return vg.mzip(f, ov, w) if isinstance(w, vg.Mat) else vg.mmap(lambda x: f(x, w), ov)
    if name in ("unaryExpr", "binaryExpr"):
        f = I.ev(rest[-1])
        w = matval(I, I.ev(rest[0])) if name == "binaryExpr" else None
        return vg.Mat(ov.r, ov.c, [num(I.call_value(f, [x] if w is None else [x, w.e[i]])) for i, x in enumerate(ov.e)])
    if name == "redux":
        f = I.ev(rest[0])
        s = ov.e[0]
        for x in colmajor(ov)[1:]:
            s = I.call_value(f, [s, x])
        return s
    if name == "mean":
        return alg.div(_sum(ov.e), len(ov.e))
    if name == "lpNorm":
        p = ta[0] if ta else 2
        a = [alg.abs_(num(x)) for x in ov.e]
        if p == 1:
            return _sum(a)
        if p == 2:
            return alg.sqrt_(_sum([alg.mul(x, x) for x in a]))
        if p == -1:
            s = a[0]
            for x in a[1:]:
                s = scalar_fn(I, "fmax", [s, x])
            return s
    if name in ("all", "any", "count") and not rest:
        bs = [vg.tobool(x) for x in ov.e]
        if name == "count":
            return _sum([alg.ite(b, 1, 0) for b in bs])
        r = TRUE if name == "all" else FALSE
        for b in bs:
            r = alg.b_and(r, b) if name == "all" else alg.b_or(r, b)
        return I.resolve(r)
    if name == "select":
        x, y = (matval(I, I.ev(z)) for z in rest)
        g = lambda z, i: z.e[i] if isinstance(z, vg.Mat) else z
        return vg.Mat(ov.r, ov.c, [vg.vite(I.resolve(vg.tobool(b)), g(x, i), g(y, i)) for i, b in enumerate(ov.e)])
    if name == "replicate":
        a = ints(I, rest) if rest else ta[:2]
        return vg.Mat(ov.r * a[0], ov.c * a[1], [ov.at(i % ov.r, j % ov.c) for i in range(ov.r * a[0]) for j in range(ov.c * a[1])])
    if name == "reshaped":
        a = ints(I, rest) if rest else [x for x in ta[:2]]
        v = colmajor(ov)
        r, c = a if len(a) == 2 else (len(v), 1)
        if r * c != len(v):
            raise vg.ShapeError("reshape of %d entries as %dx%d" % (len(v), r, c))
        return vg.Mat(r, c, [v[j * r + i] for i in range(r) for j in range(c)])
    if name == "reverse":
        return vg.Mat(ov.r, ov.c, list(reversed(ov.e)))
    if name in ("transposeInPlace", "adjointInPlace"):
        I.wr(ol, vg.fit(vg.mtrans(ov), ov.dyn))
        return None
    if name == "reverseInPlace":
        I.wr(ol, vg.Mat(ov.r, ov.c, list(reversed(ov.e)), ov.dyn))
        return None
    if name == "lazyProduct":
        return vg.mmul(ov, matval(I, I.ev(rest[0])))
    if name in ("isApprox", "isZero", "isOnes", "isIdentity", "isMuchSmallerThan"):
        w = matval(I, I.ev(rest[0])) if name == "isApprox" else None
        if name == "isApprox" and len(w.e) != len(ov.e):
            raise vg.ShapeError("isApprox of different shapes")
        ref = w.e if w is not None else [0] * len(ov.e) if name == "isZero" else [1] * len(ov.e) if name == "isOnes" else [int(i == j) for i in range(ov.r) for j in range(ov.c)]
        if all(alg.eq(num(x), num(y)) for x, y in zip(ov.e, ref)):
            return TRUE
        v = [(alg.numeric(num(x)), alg.numeric(num(y))) for x, y in zip(ov.e, ref)]
        if name != "isMuchSmallerThan" and all(x is not None and y is not None for x, y in v):
            top = max(1, min(sum(x * x for x, _ in v), sum(y * y for _, y in v)) if name == "isApprox" else 1)
            return alg.b_const(float(sum((x - y) ** 2 for x, y in v)) <= 1e-24 * float(top))
        raise vg.Und("Eigen method " + name)
    if name in ("allFinite",):
        return TRUE
    if name == "hasNaN":
        return FALSE
    if name == "nonZeros":
        return sum(1 for x in ov.e if not (isinstance(x, CONST) and x == 0))
    if name == "setLinSpaced":
        a = [num(I.ev(x)) for x in rest]
        n = a.pop(0) if len(a) == 3 else len(ov.e)
        v = [a[1] if n == 1 else alg.add(a[0], alg.mul(Fraction(i, n - 1), alg.sub(a[1], a[0]))) for i in range(n)]
        I.wr(ol, vg.Mat(1, n, v, ov.dyn) if ov.r == 1 and n > 1 and ov.dyn is not None and ov.dyn[0] == 1 else vg.Mat(n, 1, v, ov.dyn))
        return ol
    if name == "applyOnTheLeft":
        I.wr(ol, vg.fit(vg.mmul(matval(I, I.ev(rest[0])), ov), ov.dyn))
        return None
    if name == "applyOnTheRight":
        I.wr(ol, vg.fit(vg.mmul(ov, matval(I, I.ev(rest[0]))), ov.dyn))
        return None
    if name == "outerSize":
        return ov.c
    if name == "cwiseProduct":
        return vg.mzip(alg.mul, ov, matval(I, I.ev(rest[0])))
    if name == "cwiseQuotient":
        return vg.mzip(alg.div, ov, matval(I, I.ev(rest[0])))
    if name == "cwiseInverse":
        return vg.mmap(lambda x: alg.div(1, x), ov)
    if name in ("cwiseAbs", "abs"):
        return vg.mmap(alg.abs_, ov)
    if name in ("cwiseSqrt", "sqrt"):
        return vg.mmap(alg.sqrt_, ov)
    if name == "asDiagonal":
        n = len(ov.e)
        return vg.Mat(n, n, [ov.e[i] if i == j else 0 for i in range(n) for j in range(n)])
    if name in ("colwise", "rowwise"):
        return vg.Obj("<eig>" + name, {"m": ov})
    if name == "finished":
        return ol
    if name in ("data",):
        return vg.Ptr(ol.sub(0))
    if name in ("maxCoeff", "minCoeff"):
        s, at = num(ov.e[0]), (0, 0)
        for j in range(ov.c):
            for i in range(ov.r):
                if i == j == 0:
                    continue
                a = num(ov.at(i, j))
                c = I.resolve(alg.lt(s, a) if name == "maxCoeff" else alg.lt(a, s))
                s = alg.ite(c, a, s)
                at = tuple(alg.ite(c, x, y) for x, y in zip((i, j), at))
        if len(rest) == 1:
            at = (at[0] if ov.c == 1 else at[1],)
        for p, k in zip(rest, at):
            I.wr(I.deref(I.ev(p)), k)
        return s
    if name in ("ldlt", "llt", "lu", "fullPivLu", "partialPivLu", "colPivHouseholderQr", "householderQr", "fullPivHouseholderQr"):
        return vg.Obj("<eig>dec", {"m": ov, "k": vg.Str(name)})
    if name == "cast":
        return ov
    if name in ("operator double", "value"):
        return num(ov)
    if name in ("begin", "cbegin"):
        return vg.Ptr(ol.sub(0))
    if name in ("end", "cend"):
        return vg.Ptr(ol.sub(len(ov.e)))
    if name == "swap":
        o2 = I.lv(rest[0])
        t = I.rd(o2)
        I.wr(o2, ov)
        I.wr(ol, t)
        return None
    raise vg.Und("Eigen method %s" % name)


DECS = ("Eigen::LDLT", "Eigen::LLT", "Eigen::PartialPivLU", "Eigen::FullPivLU", "Eigen::FullPivHouseholderQR",
        "Eigen::ColPivHouseholderQR", "Eigen::HouseholderQR")


def solver_method(I, o, name, rest, e, ol=None):
    import vg
    if o.cls == "<eig>dec" and name == "compute":
        n = vg.Obj("<eig>dec", dict(o.f, m=matval(I, I.ev(rest[0]))))
        if ol is not None:
            I.wr(ol, n)
            return ol
        return n
    if o.cls == "<eig>dec" and name == "info":
        return 0
    if o.cls == "<eig>dec" and name in ("determinant", "inverse", "isInvertible", "rank", "setThreshold") and o.f["m"] is not vg.UN:
        m = o.f["m"]
        if name == "determinant":
            return vg.mdet(m)
        if name == "inverse":
            return vg.minv(m)
        if name == "setThreshold":
            return ol if ol is not None else o
        d = alg.numeric(vg.mdet(m))
        if d is not None and (name == "isInvertible" or d != 0):
            return alg.b_const(d != 0) if name == "isInvertible" else m.r
    if o.cls == "<eig>dec" and name == "solve":
        w = matval(I, I.ev(rest[0]))
        m = o.f["m"]
        if m is vg.UN:
            raise vg.Und("solve with an empty decomposition")
        if o.f["k"].s in ("llt", "ldlt") and m.r == m.c:      # these read the lower triangle only
            m = vg.Mat(m.r, m.c, [m.at(max(i, j), min(i, j)) for i in range(m.r) for j in range(m.c)])
        if m.r > m.c:                                          # least squares
            t = vg.Mat(m.c, m.r, [m.at(i, j) for j in range(m.c) for i in range(m.r)])
            m, w = vg.mmul(t, m), vg.mmul(t, w)
        if vg.MEASURE is not None:
            m, w = vg.MEASURE.reduce_mat(m), vg.MEASURE.reduce_mat(w)
        if o.f["k"].s in ("fullPivLu", "fullPivHouseholderQr", "colPivHouseholderQr", "rank"):      # rank-revealing
            return vg.gauss(m, w, True)
        if m.r > 3:
            return vg.gauss(m, w)
        return vg.mmul(vg.minv(m), w)
    if o.cls == "<eig>sae":
        if name in ("compute", "computeDirect"):
            n = vg.Obj("<eig>sae", {"m": matval(I, I.ev(rest[0]))})
            if ol is not None:
                I.wr(ol, n)
                return ol
            return n
        if name == "info":
            return 0
        if name in ("eigenvalues", "eigenvectors") and getattr(I, "eig", None) is not None and o.f["m"] is not vg.UN:
            m = o.f["m"]                        # the lower triangle is read
            vals, vecs = I.eig(vg.Mat(m.r, m.c, [m.at(max(i, j), min(i, j)) for i in range(m.r) for j in range(m.c)]))
            return vg.Mat(m.r, 1, vals) if name == "eigenvalues" else vg.Mat(m.r, m.r, vecs)
        raise vg.Und("eigenvalues of a general matrix")
    if o.cls.startswith("<eig>") and o.cls[5:] in ("colwise", "rowwise"):
        m = o.f["m"]
        col = o.cls[5:] == "colwise"
        lines = [[vg.num(m.at(i, j)) for i in range(m.r)] for j in range(m.c)] if col else [[vg.num(m.at(i, j)) for j in range(m.c)] for i in range(m.r)]
        sq = lambda x: _sum([alg.mul(z, z) for z in x])

        def ext(x, k):
            r = x[0]
            for z in x[1:]:
                r = scalar_fn(I, k, [r, z])
            return r

        def prod(x):
            r = 1
            for z in x:
                r = alg.mul(r, z)
            return r
        f = {"sum": _sum, "squaredNorm": sq, "norm": lambda x: alg.sqrt_(sq(x)), "mean": lambda x: alg.div(_sum(x), len(x)), "prod": prod,
             "maxCoeff": lambda x: ext(x, "fmax"), "minCoeff": lambda x: ext(x, "fmin")}.get(name)
        if f is not None and not rest:
            v = [f(x) for x in lines]
            return vg.Mat(1, m.c, v) if col else vg.Mat(m.r, 1, v)
        if name in ("normalized", "reverse") and not rest:
            v = []
            for x in lines:
                n = alg.sqrt_(sq(x)) if name == "normalized" else None
                v.append([alg.div(z, n) for z in x] if n is not None else list(reversed(x)))
            return vg.Mat(m.r, m.c, [v[j][i] if col else v[i][j] for i in range(m.r) for j in range(m.c)])
        if name == "cross" and len(rest) == 1:
            w = [vg.num(z) for z in matval(I, I.ev(rest[0])).e]
            cr = lambda x: [alg.sub(alg.mul(x[(k + 1) % 3], w[(k + 2) % 3]), alg.mul(x[(k + 2) % 3], w[(k + 1) % 3])) for k in range(3)]
            v = [cr(x) for x in lines]
            return vg.Mat(m.r, m.c, [v[j][i] if col else v[i][j] for i in range(m.r) for j in range(m.c)])
    raise vg.Und("Eigen %s.%s" % (o.cls, name))


def colmajor(m):
    return [m.at(i, j) for j in range(m.c) for i in range(m.r)]


def _sum(xs):
    import vg
    s = 0
    for x in xs:
        s = alg.add(s, vg.num(x))
    return s


def sym_coeff(I, ol, ov, ix):
    import vg
    cs = None
    combos = None
    alts = [vg.const_cases(i) if not isinstance(i, int) else [({}, i)] for i in ix]
    if any(a is None for a in alts):
        raise vg.Und("symbolic matrix index")
    import itertools
    loc = None
    for combo in itertools.product(*alts):
        g = TRUE
        for lits, _ in combo:
            for b, t in lits.items():
                g = alg.b_and(g, b if t else alg.b_not(b))
        if g is FALSE:
            continue
        idx = [v for _, v in combo]
        k = idx[0] if len(idx) == 1 else ("el", idx[0], idx[1])
        if ol is None:
            x = vg.proj(ov, k)
            loc = x if loc is None else vg.vite(g, x, loc)
        else:
            l = ol.sub(k)
            loc = l if loc is None else vg.LIte(g, l, loc)
    return loc


def comma_put(I, c, v):
    import vg
    m = I.rd(c.loc)
    if not isinstance(m, vg.Mat):
        raise vg.Und("comma initialiser of a non-matrix")
    R, C = m.r, m.c
    if isinstance(v, vg.Mat):
        nr, nc = v.r, v.c
        val = v
    else:
        nr = nc = 1
        val = vg.Mat(1, 1, [vg.num(v)])
    r, cc, h = c.r, c.c, c.h
    if cc == C and C > 0:
        r, cc, h = r + h, 0, 0
    if h == 0:
        h = nr
    if r + nr > R or cc + nc > C:
        raise vg.OutOfBounds("comma initialiser with too many coefficients for a %dx%d matrix" % (R, C))
    m2 = vg.inject(m, ("blk", r, cc, nr, nc), val)
    I.wr(c.loc, m2)
    return vg.Comma(c.loc, r, cc + nc, h)


def _pow(x, n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, int) and abs(n) <= 64:
        if n >= 0:
            return alg.powi(x, n)
        return alg.powi(alg.inv(x), -n)
    if isinstance(n, Fraction) and n.denominator in (2, 4, 8):
        r, k = x, n.denominator
        while k > 1:
            r, k = alg.sqrt_(r), k // 2
        return alg.powi(r, n.numerator) if n > 0 else alg.powi(alg.inv(r), -n.numerator)
    return alg.fn("pow", x, n)


FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "less": "<", "greater": ">", "less_equal": "<=",
            "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!=", "logical_and": "&&", "logical_or": "||", "logical_not": "!", "negate": "neg"}


def functor(name, t=""):
    import vg
    op = FUNCTORS[name]

    def f(I, a):
        return value_op(I, op, a[0], a[1] if len(a) > 1 else None, t)
    return vg.Fun("std::%s<%s>" % (name, t), f)


def find_op(I, x, op):
    for g in I.tu.functions:
        if g.get("cls") == x.cls and short(g["q"]) == "operator" + op and len(g["params"]) == 1 and "body" in g:
            return g
    for g in I.tu.functions:
        if short(g["q"]) == "operator" + op and len(g["params"]) == 2 and "body" in g and not g.get("cls") and all(
                vg_strip(I.tu.T(p["t"]).rstrip("&").rstrip()) == x.cls for p in g["params"]):
            return g
    raise _vg().Und("no operator%s for %s" % (op, x.cls))


def value_op(I, op, x, y, t=""):
    """x op y on values, as a library function object or algorithm applies it"""
    vg = _vg()
    if op == "neg":
        return vg.mmap(lambda z: alg.mul(-1, z), x) if isinstance(x, vg.Mat) else alg.mul(-1, vg.num(x))
    if op == "!":
        return alg.b_not(vg.tobool(x))
    if op == "&&":
        return alg.b_and(vg.tobool(x), vg.tobool(y))
    if op == "||":
        return alg.b_or(vg.tobool(x), vg.tobool(y))
    if op in ("<", ">", "<=", ">=", "==", "!="):
        if op in ("==", "!="):
            r = default_eq(I, x, y) if not isinstance(x, vg.Ptr) else alg.b_const(x == y)
            return I.resolve(r if op == "==" else alg.b_not(r))
        a, b = (x, y) if op in ("<", ">=") else (y, x)
        r = default_less(I, a, b)
        return I.resolve(r if op in ("<", ">") else alg.b_not(r))
    if isinstance(x, vg.Mat) or isinstance(y, vg.Mat):
        return eigen_binary(I, op, x, y, {})
    if isinstance(x, vg.Obj):
        g = find_op(I, x, op)
        if len(g["params"]) == 2:
            return I.deloc(I.call_fn(g, [I.new(x), I.new(y)]))
        return I.deloc(I.call_fn(g, [I.new(y)], I.new(x)))
    if isinstance(x, vg.Str) and isinstance(y, vg.Str) and op == "+":
        return vg.Str(x.s + y.s)
    if op in ("/", "%") and not t and isinstance(x, int) and isinstance(y, int) and y and x % y:
        raise vg.Und("quotient of values of unknown type")
    return I.binop(op, x, y, t or "double")


def to_int(I, v, node):
    """the value after conversion to the type of an accumulator"""
    vg = _vg()
    t = vg.strip_t(I.tu.T(node.get("t", -1)))
    if not vg.is_int_t(t) or t == "bool" or isinstance(v, int) or not isinstance(v, (Fraction, E)):
        return v
    if isinstance(v, Fraction):
        return int(v)
    return v if int_valued(v) else alg.fn("trunc", v)


def int_valued(v):
    """an if-then-else over integers (counts, indices)"""
    vg = _vg()
    try:
        cs = vg.const_cases(v)
    except Exception:
        cs = None
    return cs is not None


def view(I, e, t):
    """the location an Eigen view object refers to"""
    vg = _vg()
    a = e["a"]
    if not t.startswith("Eigen::Map<"):
        if a and (len(a) == 1 or t.startswith("Eigen::Ref<")):
            return I.lv(a[0])
        raise vg.Und("constructor of " + t[:60])
    if len(a) == 1 and e.get("copy"):
        return I.lv(a[0])
    ta = vg.split_targs(t)
    d = vg.mat_dims(ta[0].replace("const ", "", 1) if ta[0].startswith("const ") else ta[0])
    n = ints(I, [x for x in a[1:] if "Stride" not in I.tu.T(x.get("t", -1))])
    if len(n) > 2 or d is None or len(ta) > 2 and "Stride<0, 0>" not in ta[2]:
        raise vg.Und("Eigen::Map with strides")
    r, c = d if not n else (n[0], 1) if len(n) == 1 and d[1] == 1 else (1, n[0]) if len(n) == 1 else n
    m = vg.split_targs(ta[0].replace("const ", "", 1))
    rm = len(m) > 3 and m[3].isdigit() and int(m[3]) & 1
    p = I.ev(a[0])
    if isinstance(p, vg.Seq):
        p = vg.Ptr(I.lv(a[0]).sub(0))
    if not isinstance(p, vg.Ptr) or not isinstance(p.loc, vg.Loc):
        raise vg.Und("Eigen::Map of %s" % type(p).__name__)
    l, off = p.loc, 0
    if l.p and isinstance(l.p[-1], int):
        l, off = vg.Loc(l.a, l.p[:-1]), l.p[-1]
    base = I.rd(l)
    if not isinstance(base, (vg.Seq, vg.Mat)):
        raise vg.Und("Eigen::Map of %s" % type(base).__name__)
    v = l.sub(("map", off, r, c, bool(rm)))
    I.rd(v)
    return v


IGN = re.compile(r"std::(cout|cerr|endl|flush|basic_ostream|ostream|operator<<|setw|setprecision|setfill|scientific|fixed)|basic_ostream|basic_ios|ios_base")


def arith_conv(I, v, t):
    """the user-defined conversion of a class value to an arithmetic type, when library code needs it"""
    import vg
    if not isinstance(v, vg.Obj) or not re.match(r"(unsigned|int|long|size_t|double|float|bool)", vg.strip_t(t)):
        return v
    c = [f for f in I.tu.functions if f.get("cls") == v.cls and short(f["q"]).startswith("operator ") and "body" in f and not f["params"]]
    return I.deloc(I.call_fn(c[0], [], I.new(v))) if len(c) == 1 else v


def std_call(I, kind, q, e, want):
    import vg
    Seq, Ptr, Loc, num = vg.Seq, vg.Ptr, vg.Loc, vg.num
    name = short(q)
    if kind == "call" and q == "std::_Bit_reference::operator bool":
        return I.deloc(I.ev(e["o"]))
    if kind == "ctor":
        t = want
        h = I.ov.get("stdctor:" + name)
        if h:
            r = h(I, e, t)
            if r is not NotImplemented:
                return r
        if t.startswith("Eigen::") or (q.startswith("Eigen::") and not t.startswith("std::")):
            if t.startswith("Eigen::Stride<"):
                return vg.Opq("stride")
            if t.startswith("Eigen::Map<"):
                return I.rd(view(I, e, t))
            if t.startswith("Eigen::aligned_allocator"):
                return vg.Opq("allocator")
            if e.get("copy"):
                return I.ev(e["a"][0])
            if t.startswith("Eigen::Triplet<"):
                a = [I.ev(x) for x in e["a"]]
                return vg.Obj("<eig>triplet", {"row": num(a[0]), "col": num(a[1]), "value": I.deloc(a[2])}) if len(a) == 3 else vg.UN
            if t.startswith("Eigen::SparseMatrix<") and len(e["a"]) == 2:
                r, c = ints(I, e["a"])
                return fill_mat(r, c, 0, (-1, -1))
            d = vg.mat_dims(t) if re.match(r"Eigen::(Matrix|Array|SparseMatrix)<", t) else None
            if d is None:
                if t.startswith(DECS):
                    k = "llt" if t.startswith(("Eigen::LDLT", "Eigen::LLT")) else "rank" if t.startswith(DECS[3:6]) else "lu"
                    a = [x for x in e["a"] if not I.tu.T(x.get("t", -1)).startswith(("long", "unsigned", "int"))]
                    return vg.Obj("<eig>dec", {"m": matval(I, I.ev(a[0])) if a else vg.UN, "k": vg.Str(k)})
                if t.startswith("Eigen::DiagonalMatrix<") and len(e["a"]) > 1:
                    v = [num(I.ev(x)) for x in e["a"]]
                    return vg.Mat(len(v), len(v), [v[i] if i == j else 0 for i in range(len(v)) for j in range(len(v))])
                if t.startswith("Eigen::SelfAdjointEigenSolver"):
                    a = [x for x in e["a"] if not I.tu.T(x.get("t", -1)).startswith(("long", "unsigned", "int"))]
                    return vg.Obj("<eig>sae", {"m": matval(I, I.ev(a[0])) if a else vg.UN})
                if len(e["a"]) == 1:
                    return I.ev(e["a"][0])
                raise vg.Und("Eigen constructor %s" % t)
            a = [I.ev(x) for x in e["a"]]
            if not a:
                return I.default(t)
            if any("initializer_list" in I.tu.T(x.get("t", -1)) for x in e["a"]):
                rows = a[0].e if len(a) == 1 else ()
                if rows and all(isinstance(x, Seq) for x in rows):
                    if len(rows) == 1 and (d[1] == 1 or d[0] == 1):
                        v = [num(x) for x in rows[0].e]
                        return vg.Mat(len(v), 1, v, d) if d[1] == 1 else vg.Mat(1, len(v), v, d)
                    if len({len(x.e) for x in rows}) == 1:
                        return vg.Mat(len(rows), len(rows[0].e), [num(x) for r in rows for x in r.e], d)
                raise vg.Und("Eigen constructor from a list")
            if len(a) == 2 and isinstance(matval(I, a[0]), vg.Mat):         # a defaulted enable_if parameter follows
                a = a[:1]
            if len(a) == 1:
                v = matval(I, a[0])
                if isinstance(v, vg.Mat):
                    return vg.fit(v, d)
                if isinstance(v, vg.Obj) and "<base>" in v.f:
                    return vg.fit(v.f["<base>"], d)
                if isinstance(v, vg.Ptr):
                    vals = [num(I.rd(I.ptr_add(v, i).loc)) for i in range(d[0] * d[1])]
                    m = [vals[j * d[0] + i] for i in range(d[0]) for j in range(d[1])]
                    return vg.Mat(d[0], d[1], m, d)
                n = num(v)
                if d[0] == -1 and isinstance(n, int):
                    return vg.Mat(n, 1, [vg.UN] * n, d)
                if d[1] == -1 and isinstance(n, int):
                    return vg.Mat(1, n, [vg.UN] * n, d)
                if d == (1, 1):
                    return vg.Mat(1, 1, [n], d)
                if isinstance(n, int) and n == d[0] * d[1]:
                    return I.default(t)
                raise vg.Und("Eigen constructor from a scalar")
            v = [num(x) for x in a]
            if d[0] > 0 and d[1] > 0 and d[0] * d[1] == len(v) and (d[0] == 1 or d[1] == 1):
                return vg.Mat(d[0], d[1], v, d)
            if len(v) == 2 and all(isinstance(x, int) for x in v):
                return vg.Mat(v[0], v[1], [vg.UN] * (v[0] * v[1]), d)
            raise vg.Und("Eigen constructor %s" % t)
        if t.startswith(("std::vector<", "std::deque<", "std::list<")):
            el = vg.split_targs(t)[0]
            a = e["a"]
            if not a:
                return Seq([])
            vals = [I.ev(x) for x in a]
            if e.get("copy"):
                return vals[0]
            if e.get("sil") or (len(vals) == 1 and isinstance(vals[0], Seq)):
                return vals[0]
            if isinstance(vals[0], Ptr) and len(vals) >= 2 and isinstance(vals[1], Ptr):
                return Seq(read_range(I, vals[0], vals[1]))
            if isinstance(vals[0], Seq):
                return vals[0]
            n = num(vals[0])
            if not isinstance(n, int):
                raise vg.Und("vector of symbolic size")
            if n > 20000:
                raise vg.Und("huge vector")
            if len(vals) > 1 and not isinstance(vals[1], vg.Obj) or (len(vals) > 1 and isinstance(vals[1], vg.Obj) and "allocator" not in vals[1].cls):
                return Seq([vals[1]] * n)
            return Seq([vg.zero_of(I, el)] * n)
        if t.startswith("std::array<"):
            return I.default(t) if not e["a"] else I.ev(e["a"][0])
        if t.startswith(("std::pair<", "std::tuple<")):
            if e.get("copy"):
                return I.ev(e["a"][0])
            n = len(vg.split_targs(t))
            if not e["a"]:
                return vg.zero_of(I, t)
            if len(e["a"]) == 1 and n != 1:
                v = I.deloc(I.ev(e["a"][0]))
                return Seq([arith_conv(I, x, y) for x, y in zip(v.e, vg.split_targs(t))]) if isinstance(v, Seq) and len(v.e) == n else v
            tt = vg.split_targs(t)
            return Seq([I.lv(x) if y.rstrip().endswith("&") and not y.rstrip().endswith("&&") else I.ev(x) for x, y in zip(e["a"], tt)])
        if t.startswith(("std::basic_string<", "std::string", "std::__cxx11::basic_string<")):
            return I.ev(e["a"][0]) if e["a"] and not isinstance(e["a"], int) else vg.Str("")
        if t.startswith("std::initializer_list"):
            return I.ev(e["a"][0])
        if t.startswith(("std::invalid_argument", "std::runtime_error", "std::logic_error", "std::out_of_range", "std::domain_error")):
            return vg.Obj(t, {})
        if re.match(r"std::(unordered_)?(set|map)<", t):
            if e.get("copy"):
                return I.ev(e["a"][0])
            if not e["a"]:
                return Seq([])
            vals = [I.deloc(I.ev(x)) for x in e["a"][:2]]
            if isinstance(vals[0], Ptr) and len(vals) == 2 and isinstance(vals[1], Ptr):
                return assoc_build(I, t, read_range(I, *vals))
            if isinstance(vals[0], Seq):
                return assoc_build(I, t, vals[0].e)
            raise vg.Und("constructor " + t)
        if re.match(r"std::(__cxx11::)?basic_[io]?stringstream<", t) and not e["a"]:
            return vg.Opq("stringstream")
        if t.startswith("std::optional<"):
            if not e["a"]:
                return I.default(t)
            v = I.ev(e["a"][0])
            if isinstance(v, vg.Obj) and v.cls in ("std::optional", "std::nullopt_t"):
                return v if v.cls == "std::optional" else I.default(t)
            if isinstance(v, vg.Opq):
                return I.default(t)
            return vg.Obj("std::optional", {"has": TRUE, "v": v})
        if t.startswith(("std::shared_ptr<", "std::unique_ptr<")):
            if not e["a"]:
                return vg.NULLP
            v = I.deloc(I.ev(e["a"][0]))
            if isinstance(v, (Ptr, vg.LIte, vg.Gate, vg.Opq)):
                return v
            raise vg.Und("smart pointer constructor")
        if t.startswith("std::complex<"):
            return I.ev(e["a"][0])
        m = re.match(r"(?:const )?std::(\w+)<(.*)>$", t)
        if m and m.group(1) in FUNCTORS:
            return I.ev(e["a"][0]) if e["a"] else functor(m.group(1), "" if m.group(2) == "void" else m.group(2))
        if t.startswith("std::integer_sequence<"):
            return vg.Obj(t, {})
        if t.startswith(("std::function<",)):
            return I.ev(e["a"][0])
        if t.startswith(("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::allocator", "std::random_device")):
            return I.ev(e["a"][0]) if e["a"] else vg.Obj(t, {})
        return NotImplemented

    args = e["a"]
    op = e.get("op")
    h = I.ov.get("std:" + name)
    if h is not None:
        r = h(I, e, want)
        if r is not NotImplemented:
            return r
    if name == "to_string" and q.startswith("std::") and len(args) == 1:
        v = I.ev(args[0])
        return vg.Opq("string", alg.show(v) if isinstance(v, (alg.E, int, Fraction)) else str(v)[:40])
    if name == "operator+" and q == "std::operator+" and len(args) == 2:
        u = [I.ev(x) for x in args]
        u = [I.rd(x) if isinstance(x, vg.Loc) else x for x in u]
        if all(isinstance(x, vg.Str) for x in u):
            return vg.Str(u[0].s + u[1].s)
        if all(isinstance(x, (vg.Str, vg.Opq)) for x in u):
            return vg.Opq("string", str(u[0])[:60], str(u[1])[:60])
        raise vg.Und("operator+ of %s" % type(u[0]).__name__)
    if q in ("abort", "exit", "__assert_fail", "std::abort", "std::exit", "std::terminate"):
        raise vg.Thrown(None, q)
    # ---- scalar maths
    if name in ("sqrt", "sqrtf", "sqrtl") and len(args) == 1:
        return alg.sqrt_(num(I.ev(args[0])))
    if name in ("abs", "fabs", "labs") and len(args) == 1:
        return alg.abs_(num(I.ev(args[0])))
    if name in ("pow", "powf") and len(args) == 2 and not op:
        return _pow(num(I.ev(args[0])), num(I.ev(args[1])))
    if name in ("log", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "log10", "floor", "ceil", "round", "hypot", "lgamma", "tgamma", "isnan", "isfinite", "isinf") and not op and (q.startswith("std::") or "::" not in q):
        a = [num(I.ev(x)) for x in args]
        if name == "log10":
            return alg.div(alg.fn("log", a[0]), alg.fn("log", 10)) if a[0] != 1 else 0
        if name == "hypot":
            return alg.sqrt_(alg.add(alg.mul(a[0], a[0]), alg.mul(a[1], a[1])))
        if len(a) == 1 and isinstance(a[0], CONST):
            if name in ("floor", "ceil", "round"):
                import math
                return {"floor": math.floor, "ceil": math.ceil, "round": lambda x: int(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)}[name](a[0])
            if (name, a[0]) in (("exp", 0), ("cos", 0), ("cosh", 0)):
                return 1
            if a[0] == 0 and name in ("sin", "tan", "sinh", "tanh", "asin", "atan") or (name == "log" and a[0] == 1):
                return 0
            if name == "acos" and a[0] in (1, -1):
                return 0 if a[0] == 1 else alg.var("pi")
        if name in ("isnan", "isinf"):
            return FALSE
        if name == "isfinite":
            return TRUE
        return alg.fn(name, *a)
    if name in SCALAR2 and not op and not e.get("mcall") and (q.startswith("std::") or "::" not in q) and len(args) == SCALAR2[name]:
        return scalar_fn(I, name, [num(I.deloc(I.ev(x))) for x in args])
    if name in ("max", "min", "clamp", "minmax") and q.startswith("std::") and not e.get("mcall") and (len(args) >= 2 or name == "minmax"):
        a = [I.deloc(I.ev(x)) for x in args]
        if name == "minmax" and len(a) == 1:
            lo = hi = a[0].e[0]
            for x in a[0].e[1:]:
                lo, hi = vg.vite(less(I, None, x, lo), x, lo), vg.vite(less(I, None, hi, x), x, hi)
            return Seq([lo, hi])
        il = isinstance(a[0], Seq) and "initializer_list" in I.tu.T(args[0].get("t", -1))
        cmp = a[-1] if len(a) == (4 if name == "clamp" else 2 if il else 3) else None
        if name == "clamp":
            return vg.vite(less(I, cmp, a[0], a[1]), a[1], vg.vite(less(I, cmp, a[2], a[0]), a[2], a[0]))
        if il or cmp is not None or name == "minmax":
            vals = list(a[0].e) if il else a[:2]
            lo = hi = vals[0]
            for x in vals[1:]:
                lo, hi = vg.vite(less(I, cmp, x, lo), x, lo), vg.vite(less(I, cmp, hi, x), x, hi)
            return Seq([lo, hi]) if name == "minmax" else lo if name == "min" else hi
        x, y = num(a[0]), num(a[1])
        c = alg.lt(x, y) if name == "max" else alg.lt(y, x)
        return alg.ite(I.resolve(c), y, x)
    if name in ("max", "min") and len(args) == 1 and not e.get("mcall"):
        s = I.ev(args[0])
        r = num(s.e[0])
        for x in s.e[1:]:
            c = alg.lt(r, num(x)) if name == "max" else alg.lt(num(x), r)
            r = alg.ite(c, num(x), r)
        return r
    if name in ("max", "min", "epsilon", "infinity", "lowest", "quiet_NaN") and "numeric_limits" in q:
        if name == "epsilon":
            return Fraction(1, 2 ** (23 if "float" in I.tu.T(e.get("t", -1)) else 52))
        dmax, fmax = (2 ** 53 - 1) * 2 ** 971, (2 ** 24 - 1) * 2 ** 104
        lim = {"float": {"min": Fraction(1, 2 ** 126), "max": fmax, "lowest": -fmax},
               "double": {"min": Fraction(1, 2 ** 1022), "max": dmax, "lowest": -dmax},
               "int": {"min": -2 ** 31, "max": 2 ** 31 - 1, "lowest": -2 ** 31}, "unsigned long": {"min": 0, "max": 2 ** 64 - 1, "lowest": 0},
               "long": {"min": -2 ** 63, "max": 2 ** 63 - 1, "lowest": -2 ** 63}, "unsigned int": {"min": 0, "max": 2 ** 32 - 1, "lowest": 0}}
        v = lim.get(vg.strip_t(I.tu.T(e.get("t", -1))), {}).get(name) if name != "infinity" else 2 ** 1100
        if v is not None:
            return v
        return alg.var("%s" % q)
    if name in ("move", "forward", "as_const", "ref", "cref", "addressof") and len(args) == 1 and q.startswith("std::"):
        if name == "addressof":
            return Ptr(I.lv(args[0]))
        return I.lv(args[0])
    if name == "swap" and len(args) == 2:
        a, b = I.lv(args[0]), I.lv(args[1])
        x, y = I.rd(a), I.rd(b)
        I.wr(a, y)
        I.wr(b, x)
        return None
    if name == "exchange" and q.startswith("std::") and len(args) == 2:
        l = I.lv(args[0])
        old, v = I.rd(l), I.deloc(I.ev(args[1]))
        I.wr(l, v)
        return old
    if name == "apply" and q.startswith("std::") and len(args) == 2:
        f, t = I.ev(args[0]), I.deloc(I.ev(args[1]))
        return I.call_value(f, [I.rd(z) if isinstance(z, vg.Loc) else z for z in t.e])
    if name == "iter_swap":
        a, b = I.ev(args[0]).loc, I.ev(args[1]).loc
        x, y = I.rd(a), I.rd(b)
        I.wr(a, y)
        I.wr(b, x)
        return None
    if name in ("erase_if", "erase") and q in ("std::erase_if", "std::erase") and len(args) == 2:
        l = I.lv(args[0])
        v, p = I.rd(l), I.deloc(I.ev(args[1]))
        cs = [(x, default_eq(I, x, p) if name == "erase" else vg.tobool(I.call_value(p, [x]))) for x in v.e]
        if any(c not in (TRUE, FALSE) for _, c in cs):
            raise vg.Und("std::%s on symbolic values" % name)
        I.wr(l, Seq([x for x, c in cs if c is FALSE]))
        return len([1 for _, c in cs if c is TRUE])
    if "ranges" in q and name == "operator()" and args:
        m = re.search(r"__(\w+?)_fn", q + e.get("cls", "") + I.tu.T(args[0].get("t", -1)))
        if m:
            l = I.lv(args[1])
            v = I.rd(l)
            if isinstance(v, Ptr):
                return algorithm(I, m.group(1), args[1:], e)
            if isinstance(v, (Seq, vg.Mat)):
                more = [z for z in args[2:] if z["k"] != "ilist" and not re.search(r"std::identity|std::ranges::(less|greater|equal_to)", I.tu.T(z.get("t", -1)))]
                return algorithm(I, m.group(1), more, e, [Ptr(l.sub(0)), Ptr(l.sub(len(v.e)))])
        raise vg.Und("call of " + q)
    if name in ("make_pair", "make_tuple"):
        return Seq([I.deloc(I.ev(x)) for x in args])
    if name == "tie" or name == "forward_as_tuple":
        return vg.Refs([I.lv(x) for x in args])
    if name == "get" and e.get("ta") and len(args) == 1:
        try:
            k = int(e["ta"][0])
        except (ValueError, TypeError):
            raise vg.Und("std::get by type")
        return I.lv(args[0]).sub(k)
    if op in ("&", "|") and len(args) == 2 and name in ("operator&", "operator|"):
        pass
    if name in ("distance",):
        a, b = I.ev(args[0]), I.ev(args[1])
        return I.ptr_diff(b, a)
    if name in ("next", "prev") and not e.get("mcall"):
        d = num(I.ev(args[1])) if len(args) > 1 else 1
        return I.ptr_add(I.ev(args[0]), d if name == "next" else -d)
    if name == "advance":
        l = I.lv(args[0])
        I.wr(l, I.ptr_add(I.rd(l), num(I.ev(args[1]))))
        return None
    if name in ("begin", "end", "cbegin", "cend", "size", "data", "empty") and len(args) == 1 and not e.get("mcall"):
        l = I.lv(args[0])
        s = I.rd(l)
        if isinstance(s, Seq):
            n = len(s.e)
            return {"begin": lambda: Ptr(l.sub(0)), "cbegin": lambda: Ptr(l.sub(0)), "end": lambda: Ptr(l.sub(n)),
                    "cend": lambda: Ptr(l.sub(n)), "size": lambda: n, "data": lambda: Ptr(l.sub(0)), "empty": lambda: alg.b_const(n == 0)}[name]()
    if name in ("make_shared", "make_unique"):
        m = vg.split_targs(I.tu.T(e["t"]))
        return Ptr(I.new(I.make(m[0], args)))
    if name == "memset" and len(args) == 3 and vg.num(I.ev(args[1])) == 0:
        l = I.deref(I.ev(args[0]))
        v = I.rd(l)
        if isinstance(v, vg.Obj) and v.cls in I.tu.recbyd:
            I.wr(l, vg.Obj(v.cls, {f["n"]: vg.zero_of(I, I.tu.T(f["t"])) for f in I.tu.recbyd[v.cls]["fields"]}))
            return None
        raise vg.Und("memset")
    if name == "back_inserter":
        return vg.BackIns(I.lv(args[0]))
    if q in ALGOS or (q.startswith("std::") and name in ALGO_NAMES and not e.get("mcall") and not op):
        return algorithm(I, name, args, e)
    if name == "operator()" and op == "()":
        fv = I.ev(args[0])
        if isinstance(fv, vg.Lam) or callable(fv) or (isinstance(fv, vg.Obj) and fv.cls == "<fn>"):
            if isinstance(fv, vg.Lam):
                g = fv.node if "body" in fv.node else I.tu.byid.get(e.get("fn"))
                if g is not None:
                    return I.call_lambda(fv, I.args_for(g, args[1:]), e.get("fn"))
            return I.call_value(fv, [I.ev(a) for a in args[1:]])
        if isinstance(fv, vg.Opq):
            return vg.Opq("call", fv, *[vkey(I.deloc(I.ev(a))) for a in args[1:]])
    # iterator / smart pointer operators
    if op and not re.match(r"(const )?std::(array|vector|pair|tuple|map|set|list|deque)<", e.get("cls", "")) and ("iterator" in q or q.startswith("__gnu_cxx::operator") or any("iterator" in I.tu.T(z.get("t", -1)) for z in args) or "iterator" in e.get("cls", "") or "optional" in e.get("cls", "") or "_ptr" in e.get("cls", "")):
        if op in ("++", "--"):
            l = I.lv(args[0])
            v = I.rd(l)
            I.wr(l, I.ptr_add(v, 1 if op == "++" else -1))
            return v if len(args) > 1 else I.rd(l)
        if op in ("+=", "-="):
            l = I.lv(args[0])
            d = num(I.ev(args[1]))
            I.wr(l, I.ptr_add(I.rd(l), d if op == "+=" else -d))
            return l
        if op in ("*", "->"):
            if len(args) == 1:
                v = I.ev(args[0])
                if op == "->":
                    if isinstance(v, vg.Ptr):
                        return v
                    return Ptr(I.deref(v))
                return I.deref(v)
        if op == "[]":
            return I.ptr_add(I.ev(args[0]), num(I.ev(args[1]))).loc
        if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+"):
            return I.binop(op, I.ev(args[0]), I.ev(args[1]), "long")
    if op == "<=>":
        x, y = I.deloc(I.ev(args[0])), I.deloc(I.ev(args[1]))
        return alg.ite(I.resolve(default_less(I, x, y)), -1, alg.ite(I.resolve(default_eq(I, x, y)), 0, 1))
    if op in ("==", "!=", "<") and len(args) == 2 and "basic_string" in I.tu.T(args[0].get("t", -1)) + I.tu.T(args[1].get("t", -1)):
        x, y = I.deloc(I.ev(args[0])), I.deloc(I.ev(args[1]))
        if isinstance(x, vg.Str) and isinstance(y, vg.Str):
            return alg.b_const({"==": x.s == y.s, "!=": x.s != y.s, "<": x.s < y.s}[op])
        return I.binop(op, x, y, "string")
    if op in ("<", ">", "<=", ">=", "==", "!=") and len(args) == 2:
        t0, t1 = I.tu.T(args[0].get("t", -1)), I.tu.T(args[1].get("t", -1))
        if "_ordering" in t0:
            return I.binop(op, num(I.deloc(I.ev(args[0]))), 0, "int")
        if "_ordering" in t1:
            return I.binop(op, 0, num(I.deloc(I.ev(args[1]))), "int")
    # containers
    if e.get("mcall") or op in ("[]", "=", "==", "!=", "<") or op == "+=" and "basic_string" in q:
        r = container(I, q, name, op, e, want)
        if r is not NotImplemented:
            return r
    if IGN.search(q):
        # stream output has no effect on the tracked state
        return vg.Opq("ostream")
    return NotImplemented


ALGO_NAMES = {"sort", "stable_sort", "copy", "move", "transform", "accumulate", "for_each", "fill", "iota", "reverse", "unique", "find", "find_if", "lower_bound",
              "max_element", "min_element", "all_of", "any_of", "none_of", "inner_product", "rotate", "count", "count_if", "equal", "lexicographical_compare", "copy_if", "remove_if", "remove", "adjacent_find", "is_sorted", "partial_sum", "binary_search", "next_permutation", "generate", "swap_ranges", "merge", "fill_n", "copy_n", "transform_reduce", "reduce", "for_each_n", "minmax_element", "find_if_not", "nth_element",
              "partial_sort", "equal_range", "upper_bound", "adjacent_difference", "generate_n", "set_intersection", "set_union", "set_difference",
              "set_symmetric_difference", "includes", "prev_permutation", "partition", "stable_partition", "replace", "replace_if", "mismatch",
              "inclusive_scan", "exclusive_scan", "copy_backward", "search", "is_permutation", "partition_copy", "reverse_copy", "unique_copy", "remove_copy_if"}
ALGOS = {"std::" + n for n in ALGO_NAMES}


SCALAR2 = {"fmax": 2, "fmin": 2, "fma": 3, "copysign": 2, "signbit": 1, "midpoint": 2, "lerp": 3, "gcd": 2, "lcm": 2, "trunc": 1, "cbrt": 1,
           "fmod": 2, "lround": 1, "llround": 1, "exp2": 1}


def scalar_fn(I, name, a):
    import math
    vg = _vg()
    if name in ("fmax", "fmin"):
        c = alg.lt(a[0], a[1]) if name == "fmax" else alg.lt(a[1], a[0])
        return alg.ite(I.resolve(c), a[1], a[0])
    if name == "fma":
        return alg.add(alg.mul(a[0], a[1]), a[2])
    if name == "midpoint":
        return alg.div(alg.add(a[0], a[1]), 2)
    if name == "lerp":
        return alg.add(a[0], alg.mul(a[2], alg.sub(a[1], a[0])))
    if name == "signbit":
        return I.resolve(alg.lt(a[0], 0))
    if name == "copysign":
        m = alg.abs_(a[0])
        return alg.ite(I.resolve(alg.lt(a[1], 0)), alg.mul(-1, m), m)
    if all(isinstance(x, CONST) for x in a):
        if name in ("gcd", "lcm") and all(isinstance(x, int) for x in a):
            return math.gcd(*a) if name == "gcd" else abs(a[0] * a[1]) // math.gcd(*a) if all(a) else 0
        if name == "trunc":
            return math.trunc(a[0])
        if name in ("lround", "llround"):
            return int(math.floor(abs(a[0]) + Fraction(1, 2))) * (1 if a[0] >= 0 else -1)
        if name == "fmod" and a[1]:
            return a[0] - math.trunc(Fraction(a[0]) / a[1]) * a[1]
        if name == "cbrt":
            for k in range(0, 60):
                if k ** 3 == abs(a[0]):
                    return k if a[0] >= 0 else -k
    return alg.fn(name, *a)


def vkey(v):
    return v


def class_range(I, a, b):
    """the values a class iterator visits: *it, ++it until it equals the end"""
    import vg

    def op(name, n):
        gs = [g for g in I.tu.functions if g.get("cls") == a.cls and short(g["q"]) == name and len(g["params"]) == n and "body" in g]
        if not gs:
            raise vg.Und("no %s of %s in the program" % (name, a.cls[:60]))
        return gs[0]
    it, out = I.new(a), []
    for _ in range(20000):
        t = user_op(I, I.rd(it), b, "operator!=")
        if t is None:
            t = user_op(I, I.rd(it), b, "operator==")
            t = None if t is None else alg.b_not(t)
        t = I.resolve(t) if t is not None else None
        if t is alg.FALSE:
            return out
        if t is not alg.TRUE:
            raise vg.Und("end of a class iterator range not decided")
        out.append(I.deloc(I.call_fn(op("operator*", 0), [], it)))
        I.call_fn(op("operator++", 0), [], it)
    raise vg.Und("class iterator range too long")


def read_range(I, a, b):
    import vg
    if isinstance(a, (vg.Obj, vg.Loc)) or isinstance(b, vg.Obj):
        a, b = I.deloc(a), I.deloc(b)
        if isinstance(a, vg.Obj) and isinstance(b, vg.Obj):
            return class_range(I, a, b)
    n = I.ptr_diff(b, a)
    if not isinstance(n, int):
        raise vg.Und("range of symbolic length")
    return [I.rd(I.ptr_add(a, i).loc) for i in range(n)]


def write_out(I, out, vals):
    import vg
    if isinstance(out, vg.BackIns):
        s = I.rd(out.loc)
        I.wr(out.loc, vg.Seq(s.e + tuple(vals)))
        return out
    for i, v in enumerate(vals):
        I.wr(I.ptr_add(out, i).loc, v)
    return I.ptr_add(out, len(vals))


def less(I, cmp, x, y):
    import vg
    if cmp is not None:
        return I.resolve(vg.tobool(I.call_value(cmp, [x, y])))
    return I.resolve(default_less(I, x, y))


def member_op(I, x, name):
    """the member comparison operator a class value uses: its own, an inherited one, or (when the front end did not need to
    instantiate it) the one of a specialisation of the same template with the same fields"""
    todo = [x.cls]
    while todo:
        c = todo.pop(0)
        for g in I.tu.functions:
            if g.get("cls") == c and short(g["q"]) == name and len(g["params"]) == 1:
                return g
        r = I.tu.recbyd.get(c)
        if r:
            todo += [vg_strip(t) for t in r["bases"]]
    root = x.cls.split("<")[0]
    for g in I.tu.functions:
        c = g.get("cls") or ""
        if c.split("<")[0] == root and short(g["q"]) == name and len(g["params"]) == 1:
            r = I.tu.recbyd.get(c)
            if r and not r["bases"] and {f["n"] for f in r["fields"]} == set(x.f):
                return g
    return None


def user_op(I, x, y, name):
    """x name y through a member or a free operator of the class; None when there is none"""
    g = member_op(I, x, name)
    if g:
        return vg_tobool(I.deloc(I.call_fn(g, [I.new(y)], I.new(x))))
    for g in I.tu.functions:
        if len(g["params"]) == 2 and not g.get("cls") and short(g["q"]) == name and "body" in g:
            t = vg_strip(I.tu.T(g["params"][0]["t"]))
            if t == x.cls and vg_strip(I.tu.T(g["params"][1]["t"])) == t:
                return vg_tobool(I.deloc(I.call_fn(g, [I.new(x), I.new(y)], None)))
    return None


def vg_tobool(v):
    import vg
    return vg.tobool(v)


def conversion(I, x):
    """the implicit conversion function of a class value, if it has exactly one"""
    c = [g for g in I.tu.functions if g.get("cls") == x.cls and re.match(r"operator (unsigned |long|int|double|float|bool|char)", short(g["q"]))
         and not g["params"] and "body" in g]
    return c[0] if len(c) == 1 else None


def vg_strip(t):
    import vg
    return vg.strip_t(t)


def default_less(I, x, y):
    import vg
    if any(isinstance(z, vg.Obj) and z.cls == "std::optional" for z in (x, y)):
        x, y = to_optional(x), to_optional(y)
        hx, hy = vg.tobool(x.f["has"]), vg.tobool(y.f["has"])
        if hy is FALSE:
            return FALSE
        return alg.b_and(hy, TRUE if hx is FALSE else alg.b_or(alg.b_not(hx), default_less(I, x.f["v"], y.f["v"])))
    if isinstance(x, vg.Obj):
        r = user_op(I, x, y, "operator<")
        if r is not None:
            return r
        c = conversion(I, x)
        if c:
            return default_less(I, I.deloc(I.call_fn(c, [], I.new(x))), I.deloc(I.call_fn(c, [], I.new(y))))
        raise vg.Und("no operator< for %s" % x.cls)
    if isinstance(x, vg.Refs):
        x = vg.Seq([I.rd(z) for z in x.e])
    if isinstance(y, vg.Refs):
        y = vg.Seq([I.rd(z) for z in y.e])
    if isinstance(x, vg.Seq):
        r = FALSE
        eqs = TRUE
        for a, b in zip(x.e, y.e):
            r = alg.b_or(r, alg.b_and(eqs, default_less(I, a, b)))
            eqs = alg.b_and(eqs, default_eq(I, a, b))
        if len(x.e) < len(y.e):
            r = alg.b_or(r, eqs)
        return r
    if isinstance(x, vg.Str):
        return alg.b_const(x.s < y.s)
    return alg.lt(vg.num(x), vg.num(y))


def default_eq(I, x, y):
    import vg
    if any(isinstance(z, vg.Obj) and z.cls == "std::optional" for z in (x, y)):
        x, y = to_optional(x), to_optional(y)
        hx, hy = vg.tobool(x.f["has"]), vg.tobool(y.f["has"])
        both = alg.b_and(hx, hy)
        return alg.b_or(alg.b_and(alg.b_not(hx), alg.b_not(hy)), both if both is FALSE else alg.b_and(both, default_eq(I, x.f["v"], y.f["v"])))
    if isinstance(x, vg.Obj):
        if x == y:
            return TRUE
        r = user_op(I, x, y, "operator==")
        if r is not None:
            return r
        c = conversion(I, x)
        if c:
            return default_eq(I, I.deloc(I.call_fn(c, [], I.new(x))), I.deloc(I.call_fn(c, [], I.new(y))))
        raise vg.Und("no operator== for %s" % x.cls)
    if isinstance(x, vg.Refs):
        x = vg.Seq([I.rd(z) for z in x.e])
    if isinstance(y, vg.Refs):
        y = vg.Seq([I.rd(z) for z in y.e])
    if isinstance(x, vg.Seq):
        if len(x.e) != len(y.e):
            return FALSE
        r = TRUE
        for a, b in zip(x.e, y.e):
            r = alg.b_and(r, default_eq(I, a, b))
        return r
    if isinstance(x, vg.Str) and isinstance(y, vg.Str):
        return alg.b_const(x.s == y.s)
    return alg.eqb(vg.num(x), vg.num(y))


def is_const_b(b):
    return b is TRUE or b is FALSE


def sort_vals(I, vals, cmp):
    """constant keys: plain sort; otherwise a compare-exchange network of gated values"""
    import vg, functools
    vals = list(vals)
    n = len(vals)
    if n > 6:           # constant keys

        def two(a, b):
            if a is b:
                return 0
            for x, y, r in ((a, b, -1), (b, a, 1)):
                c = less(I, cmp, x, y)
                if c is TRUE:
                    return r
                if c is not FALSE:
                    raise vg.Und("sort of %d symbolic values" % n)
            return 0
        return sorted(vals, key=functools.cmp_to_key(two))
    # insertion network
    for i in range(n):
        for j in range(n - 1 - i):
            c = less(I, cmp, vals[j + 1], vals[j])
            if c is TRUE:
                vals[j], vals[j + 1] = vals[j + 1], vals[j]
            elif c is not FALSE:
                if n > 4:
                    raise vg.Und("sort of %d symbolic values" % n)
                a, b = vals[j], vals[j + 1]
                vals[j], vals[j + 1] = vg.vite(c, b, a), vg.vite(c, a, b)
    return vals


def algorithm(I, name, args, e, first=()):
    import vg
    Seq, Ptr, num = vg.Seq, vg.Ptr, vg.num
    A = list(first) + [I.deloc(I.ev(a)) for a in args]
    node = {len(first) + i: a for i, a in enumerate(args)}

    def at(p, i):
        return I.rd(I.ptr_add(p, i).loc)

    def decided(c, what="condition"):
        c = I.resolve(vg.tobool(c))
        if c is TRUE or c is FALSE:
            return c is TRUE
        raise vg.Und("std::%s on symbolic values" % name)
    if name in ("sort", "stable_sort"):
        vals = read_range(I, A[0], A[1])
        vals = sort_vals(I, vals, A[2] if len(A) > 2 else None)
        write_out(I, A[0], vals)
        return None
    if name in ("copy", "move"):
        return write_out(I, A[2], read_range(I, A[0], A[1]))
    if name == "copy_n":
        return write_out(I, A[2], [I.rd(I.ptr_add(A[0], i).loc) for i in range(num(A[1]))])
    if name == "transform":
        xs = read_range(I, A[0], A[1])
        if len(A) == 4:
            return write_out(I, A[2], [I.call_value(A[3], [x]) for x in xs])
        ys = [I.rd(I.ptr_add(A[2], i).loc) for i in range(len(xs))]
        return write_out(I, A[3], [I.call_value(A[4], [x, y]) for x, y in zip(xs, ys)])
    if name in ("accumulate", "reduce"):
        vals = read_range(I, A[0], A[1])
        if len(A) == 2:
            A.append(vals[0] if vals else 0)
            vals = vals[1:]
            node[2] = {}
        s = A[2]
        for x in vals:
            s = I.call_value(A[3], [s, x]) if len(A) > 3 else value_op(I, "+", s, x)
            s = to_int(I, s, node.get(2, {}))
        return s
    if name in ("inner_product", "transform_reduce"):
        xs = read_range(I, A[0], A[1])
        un = name == "transform_reduce" and len(A) == 5 and not isinstance(A[2], Ptr)
        if un:
            vals, s, red, k = [I.call_value(A[4], [x]) for x in xs], A[2], A[3], 2
        else:
            prod = A[5] if len(A) > 5 else None
            vals = [I.call_value(prod, [x, at(A[2], i)]) if prod is not None else value_op(I, "*", x, at(A[2], i)) for i, x in enumerate(xs)]
            s, red, k = A[3], A[4] if len(A) > 5 else None, 3
        for x in vals:
            s = I.call_value(red, [s, x]) if red is not None else value_op(I, "+", s, x)
            s = to_int(I, s, node.get(k, {}))
        return s
    if name == "for_each_n":
        for i in range(num(A[1])):
            I.call_value(A[2], [I.ptr_add(A[0], i).loc])
        return I.ptr_add(A[0], num(A[1]))
    if name in ("generate", "generate_n"):
        n = I.ptr_diff(A[1], A[0]) if name == "generate" else num(A[1])
        return write_out(I, A[0], [I.call_value(A[2], []) for _ in range(n)])
    if name in ("nth_element", "partial_sort"):
        vals = read_range(I, A[0], A[2])
        write_out(I, A[0], sort_vals(I, vals, A[3] if len(A) > 3 else None))
        return None
    if name in ("partial_sum", "inclusive_scan", "exclusive_scan", "adjacent_difference"):
        vals = read_range(I, A[0], A[1])
        out = []
        ex = name == "exclusive_scan"
        f = A[4 if ex else 3] if len(A) > (4 if ex else 3) else functor("minus" if name == "adjacent_difference" else "plus")
        if name == "adjacent_difference":
            out = [x if i == 0 else I.call_value(f, [x, vals[i - 1]]) for i, x in enumerate(vals)]
        else:
            s = A[3] if ex else None
            for x in vals:
                if ex:
                    out.append(s)
                s = x if s is None else I.call_value(f, [s, x])
                if not ex:
                    out.append(s)
        return write_out(I, A[2], out)
    if name in ("copy_if", "remove_copy_if"):
        return write_out(I, A[2], [x for x in read_range(I, A[0], A[1]) if decided(I.call_value(A[3], [x])) == (name == "copy_if")])
    if name in ("replace", "replace_if"):
        v = read_range(I, A[0], A[1])
        write_out(I, A[0], [vg.vite(default_eq(I, x, A[2]) if name == "replace" else vg.tobool(I.call_value(A[2], [x])), A[3], x) for x in v])
        return None
    if name in ("partition", "stable_partition"):
        v = read_range(I, A[0], A[1])
        c = [decided(I.call_value(A[2], [x])) for x in v]
        write_out(I, A[0], [x for x, k in zip(v, c) if k] + [x for x, k in zip(v, c) if not k])
        return I.ptr_add(A[0], sum(c))
    if name in ("upper_bound", "equal_range"):
        v = read_range(I, A[0], A[1])
        cmp = A[3] if len(A) > 3 else None
        up = sum(1 for x in v if not decided(less(I, cmp, A[2], x)))
        lo = sum(1 for x in v if decided(less(I, cmp, x, A[2])))
        return I.ptr_add(A[0], up) if name == "upper_bound" else Seq([I.ptr_add(A[0], lo), I.ptr_add(A[0], up)])
    if name == "adjacent_find":
        v = read_range(I, A[0], A[1])
        for i in range(len(v) - 1):
            if decided(I.call_value(A[2], [v[i], v[i + 1]]) if len(A) > 2 else default_eq(I, v[i], v[i + 1])):
                return I.ptr_add(A[0], i)
        return I.ptr_add(A[0], len(v))
    if name == "mismatch":
        v = read_range(I, A[0], A[1])
        n = len(v) if len(A) < 4 or not isinstance(A[3], Ptr) else min(len(v), I.ptr_diff(A[3], A[2]))
        for i in range(n):
            if not decided(default_eq(I, v[i], at(A[2], i))):
                n = i
                break
        return Seq([I.ptr_add(A[0], n), I.ptr_add(A[2], n)])
    if name == "is_sorted":
        v = read_range(I, A[0], A[1])
        r = TRUE
        for x, y in zip(v, v[1:]):
            r = alg.b_and(r, alg.b_not(less(I, A[2] if len(A) > 2 else None, y, x)))
        return r
    if name in ("set_intersection", "set_union", "set_difference", "set_symmetric_difference", "merge", "includes"):
        xs, ys = read_range(I, A[0], A[1]), read_range(I, A[2], A[3])
        k = 4 if name == "includes" else 5
        cmp = A[k] if len(A) > k else None
        out, i, j = [], 0, 0
        only, both = [], []
        while i < len(xs) or j < len(ys):
            if j == len(ys) or i < len(xs) and decided(less(I, cmp, xs[i], ys[j])):
                out.append((xs[i], "x")); i += 1
            elif i == len(xs) or decided(less(I, cmp, ys[j], xs[i])):
                out.append((ys[j], "y")); j += 1
            elif name == "merge":
                out.append((xs[i], "x")); i += 1
            else:
                out.append((xs[i], "xy")); i += 1; j += 1
        if name == "includes":
            return alg.b_const(not any(k == "y" for _, k in out))
        keep = {"set_intersection": ("xy",), "set_union": ("x", "y", "xy"), "merge": ("x", "y"), "set_difference": ("x",), "set_symmetric_difference": ("x", "y")}[name]
        return write_out(I, A[4], [v for v, k in out if k in keep])
    if name == "swap_ranges":
        n = I.ptr_diff(A[1], A[0])
        xs, ys = read_range(I, A[0], A[1]), [at(A[2], i) for i in range(n)]
        write_out(I, A[0], ys)
        return write_out(I, A[2], xs)
    if name == "reverse_copy":
        return write_out(I, A[2], list(reversed(read_range(I, A[0], A[1]))))
    if name in ("next_permutation", "prev_permutation"):
        v = read_range(I, A[0], A[1])
        lt = (lambda x, y: decided(less(I, None, x, y))) if name == "next_permutation" else (lambda x, y: decided(less(I, None, y, x)))
        i = len(v) - 2
        while i >= 0 and not lt(v[i], v[i + 1]):
            i -= 1
        if i >= 0:
            j = len(v) - 1
            while not lt(v[i], v[j]):
                j -= 1
            v[i], v[j] = v[j], v[i]
        v[i + 1:] = reversed(v[i + 1:])
        write_out(I, A[0], v)
        return alg.b_const(i >= 0)
    if name == "is_permutation":
        xs = read_range(I, A[0], A[1])
        ys = [at(A[2], i) for i in range(len(xs))]
        for x in xs:
            k = next((k for k, y in enumerate(ys) if decided(default_eq(I, x, y))), None)
            if k is None:
                return FALSE
            ys.pop(k)
        return TRUE
    if name == "minmax_element":
        cmp = A[2] if len(A) > 2 else None
        lo = hi = A[0]
        for i in range(1, I.ptr_diff(A[1], A[0])):
            p = I.ptr_add(A[0], i)
            lo = vg.vite(less(I, cmp, I.rd(p.loc), I.rd(lo.loc)), p, lo)
            hi = vg.vite(alg.b_not(less(I, cmp, I.rd(p.loc), I.rd(hi.loc))), p, hi)
        return Seq([lo, hi])
    if name == "for_each":
        n = I.ptr_diff(A[1], A[0])
        for i in range(n):
            I.call_value(A[2], [I.ptr_add(A[0], i).loc])
        return A[2]
    if name == "fill":
        n = I.ptr_diff(A[1], A[0])
        write_out(I, A[0], [A[2]] * n)
        return None
    if name == "fill_n":
        return write_out(I, A[0], [A[2]] * num(A[1]))
    if name == "iota":
        n = I.ptr_diff(A[1], A[0])
        write_out(I, A[0], [alg.add(num(A[2]), i) for i in range(n)])
        return None
    if name == "reverse":
        write_out(I, A[0], list(reversed(read_range(I, A[0], A[1]))))
        return None
    if name == "rotate":
        v = read_range(I, A[0], A[2])
        k = I.ptr_diff(A[1], A[0])
        write_out(I, A[0], v[k:] + v[:k])
        return I.ptr_add(A[0], len(v) - k)
    if name == "unique":
        v = read_range(I, A[0], A[1])
        out = []
        for x in v:
            if out:
                c = vg.tobool(I.call_value(A[2], [out[-1], x])) if len(A) > 2 else default_eq(I, out[-1], x)
                if c is TRUE:
                    continue
                if c is not FALSE:
                    raise vg.Und("std::unique on symbolic values")
            out.append(x)
        write_out(I, A[0], out)
        return I.ptr_add(A[0], len(out))
    if name in ("remove", "remove_if"):
        v = read_range(I, A[0], A[1])
        out = []
        for x in v:
            c = default_eq(I, x, A[2]) if name == "remove" else vg.tobool(I.call_value(A[2], [x]))
            if not is_const_b(c):
                raise vg.Und("std::%s on symbolic values" % name)
            if c is FALSE:
                out.append(x)
        write_out(I, A[0], out + [vg.UN] * (len(v) - len(out)))     # what is left behind is unspecified
        return I.ptr_add(A[0], len(out))
    if name in ("find", "find_if", "find_if_not"):
        n = I.ptr_diff(A[1], A[0])
        res = I.ptr_add(A[0], n)
        conds = []
        for i in range(n):
            x = I.rd(I.ptr_add(A[0], i).loc)
            c = default_eq(I, x, A[2]) if name == "find" else vg.tobool(I.call_value(A[2], [x]))
            conds.append(alg.b_not(c) if name == "find_if_not" else c)
        for i in reversed(range(n)):
            if conds[i] is FALSE:
                continue
            res = vg.vite(conds[i], I.ptr_add(A[0], i), res)
        return res
    if name in ("count", "count_if"):
        s = 0
        for x in read_range(I, A[0], A[1]):
            c = default_eq(I, x, A[2]) if name == "count" else vg.tobool(I.call_value(A[2], [x]))
            s = alg.add(s, alg.ite(c, 1, 0))
        return s
    if name == "lower_bound":
        v = read_range(I, A[0], A[1])
        cmp = A[3] if len(A) > 3 else None
        lo, n = 0, len(v)           # bisection, as the standard prescribes the number of comparisons
        while n > 0:
            h = n // 2
            c = less(I, cmp, v[lo + h], A[2])
            if c is TRUE:
                lo, n = lo + h + 1, n - h - 1
            elif c is FALSE:
                n = h
            else:
                raise vg.Und("lower_bound on symbolic values")
        return I.ptr_add(A[0], lo)
    if name == "binary_search":
        v = read_range(I, A[0], A[1])
        return alg.b_const(any(default_eq(I, x, A[2]) is TRUE for x in v))
    if name in ("all_of", "any_of", "none_of"):
        r = TRUE if name == "all_of" else FALSE
        for x in read_range(I, A[0], A[1]):
            c = vg.tobool(I.call_value(A[2], [x]))
            r = alg.b_and(r, c) if name == "all_of" else alg.b_or(r, c)
        return alg.b_not(r) if name == "none_of" else r
    if name in ("max_element", "min_element"):
        n = I.ptr_diff(A[1], A[0])
        best = A[0]
        for i in range(1, n):
            x, y = I.rd(best.loc), I.rd(I.ptr_add(A[0], i).loc)
            c = less(I, A[2] if len(A) > 2 else None, x, y) if name == "max_element" else less(I, A[2] if len(A) > 2 else None, y, x)
            best = vg.vite(c, I.ptr_add(A[0], i), best)
        return best
    if name == "equal":
        xs = read_range(I, A[0], A[1])
        if len(A) >= 4 and isinstance(A[3], Ptr):
            ys = read_range(I, A[2], A[3])
            if len(xs) != len(ys):
                return FALSE
        else:
            ys = [I.rd(I.ptr_add(A[2], i).loc) for i in range(len(xs))]
        pred = A[-1] if not isinstance(A[-1], Ptr) else None
        r = TRUE
        for x, y in zip(xs, ys):
            r = alg.b_and(r, default_eq(I, x, y) if pred is None else vg.tobool(I.call_value(pred, [x, y])))
        return r
    if name == "lexicographical_compare" and len(A) == 4:
        xs, ys = read_range(I, A[0], A[1]), read_range(I, A[2], A[3])
        return default_less(I, Seq(xs), Seq(ys))
    raise vg.Und("std::" + name)


def find_plus(I, s):
    import vg
    for g in I.tu.functions:
        if g.get("cls") == s.cls and short(g["q"]) == "operator+" and len(g["params"]) == 1:
            return g
    for g in I.tu.functions:
        if short(g["q"]) == "operator+" and len(g["params"]) == 2 and "body" in g and all(
                vg.strip_t(I.tu.T(p["t"]).rstrip("&").rstrip()) == s.cls for p in g["params"]):
            return g
    raise vg.Und("no operator+ for %s" % s.cls)


def to_optional(v):
    import vg
    if isinstance(v, vg.Obj) and v.cls == "std::optional":
        return v
    if isinstance(v, vg.Opq) or isinstance(v, vg.Obj) and v.cls == "std::nullopt_t":
        return vg.Obj("std::optional", {"has": FALSE, "v": vg.UN})
    return vg.Obj("std::optional", {"has": TRUE, "v": v})


def assoc_build(I, t, vals):
    vg = _vg()
    kind = re.match(r"std::(?:unordered_)?(set|map)<", t).group(1)
    out = []
    cmp = assoc_order(t, kind)
    for v in vals:
        k = v if kind == "set" else v.e[0]
        i = 0
        while i < len(out):
            x = out[i] if kind == "set" else out[i].e[0]
            c, d = less(I, cmp, x, k), less(I, cmp, k, x)
            if c not in (TRUE, FALSE) or d not in (TRUE, FALSE):
                raise vg.Und("associative container with symbolic keys")
            if c is FALSE:
                break
            i += 1
        if i == len(out) or d is TRUE:
            out.insert(i, v)
    return vg.Seq(out)


def assoc_order(t, kind):
    """comparison of an associative container; the order of an unordered one is taken as that of its keys"""
    vg = _vg()
    if "unordered_" in t.split("<")[0]:
        return None
    ta = vg.split_targs(t)
    k = 1 if kind == "set" else 2
    cmp = ta[k] if len(ta) > k else "std::less"
    if cmp.startswith("std::less"):
        return None
    if cmp.startswith("std::greater<"):
        return functor("greater")
    raise vg.Und("associative container with its own order")


def assoc(I, kind, name, l, s, ct, rest):
    """std::set / std::map: a sequence sorted by the key (pairs for a map)"""
    import vg
    Seq, Ptr = vg.Seq, vg.Ptr
    ta = vg.split_targs(ct)
    cmp = assoc_order(ct, kind)

    def place(k):
        for i, x in enumerate(s.e):
            x = x if kind == "set" else x.e[0]
            c = less(I, cmp, x, k)
            if c is TRUE:
                continue
            d = less(I, cmp, k, x)
            if c is not FALSE or d not in (TRUE, FALSE):
                raise vg.Und("associative container with symbolic keys")
            return i, d is FALSE
        return len(s.e), False

    def add(v):
        nonlocal s
        i, there = place(v if kind == "set" else v.e[0])
        if not there:
            s = Seq(s.e[:i] + (v,) + s.e[i:])
            I.wr(l, s)
        return i, not there
    if name in ("operator[]", "at") and kind == "map":
        k = I.deloc(I.ev(rest[0]))
        i, there = place(k)
        if not there:
            if name == "at":
                raise vg.Thrown(None, "out_of_range")
            add(Seq([k, vg.zero_of(I, ta[1])]))
        return l.sub(i).sub(1)
    if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        A = [I.deloc(I.ev(a)) for a in rest]
        if name == "insert" and len(A) == 2 and isinstance(A[0], Ptr) and isinstance(A[1], Ptr):
            for v in read_range(I, A[0], A[1]):
                add(v)
            return None
        v = A[0] if len(A) == 1 else Seq(A) if kind == "map" and len(A) == 2 else None
        if v is None or isinstance(v, Ptr):
            raise vg.Und("insertion into an associative container")
        if kind == "map" and isinstance(v, vg.Seq) and len(v.e) != 2 or name == "insert" and kind == "set" and isinstance(v, vg.Seq) and not ta[0].startswith(("std::", "disk::")):
            for x in v.e:               # an initialiser list
                add(x)
            return None
        i, new = add(v)
        if name == "insert_or_assign" and not new:
            I.wr(l.sub(i).sub(1), v.e[1])
        return Seq([Ptr(l.sub(i)), alg.b_const(new)])
    if name in ("find", "count", "contains"):
        i, there = place(I.deloc(I.ev(rest[0])))
        return Ptr(l.sub(i if there else len(s.e))) if name == "find" else int(there) if name == "count" else alg.b_const(there)
    if name in ("lower_bound", "upper_bound", "equal_range"):
        i, there = place(I.deloc(I.ev(rest[0])))
        lo, hi = Ptr(l.sub(i)), Ptr(l.sub(i + int(there)))
        return lo if name == "lower_bound" else hi if name == "upper_bound" else Seq([lo, hi])
    if name == "erase" and len(rest) == 1:
        k = I.deloc(I.ev(rest[0]))
        if not isinstance(k, Ptr):
            i, there = place(k)
            if there:
                I.wr(l, Seq(s.e[:i] + s.e[i + 1:]))
            return int(there)
    return NotImplemented


def container(I, q, name, op, e, want):
    import vg
    Seq, Ptr, num = vg.Seq, vg.Ptr, vg.num
    args = e["a"]
    if op:
        on, rest = args[0], args[1:]
        l = None
    else:
        on, rest = e["o"], args
    if op in ("==", "!=", "<"):
        x, y = I.deloc(I.ev(on)), I.deloc(I.ev(rest[0]))
        if isinstance(x, vg.Refs):
            x = Seq([I.rd(z) for z in x.e])
        if isinstance(y, vg.Refs):
            y = Seq([I.rd(z) for z in y.e])
        ox, oy = (isinstance(z, vg.Obj) and z.cls == "std::optional" for z in (x, y))
        if (ox or oy) and op != "<":
            def eqv(a, b):
                c = [conversion(I, z) if isinstance(z, vg.Obj) else None for z in (a, b)]
                if isinstance(a, vg.Obj) != isinstance(b, vg.Obj):
                    a, b = [I.deloc(I.call_fn(k, [], I.new(z))) if k else z for k, z in zip(c, (a, b))]
                return default_eq(I, a, b)
            x, y = to_optional(x), to_optional(y)
            hx, hy = vg.tobool(x.f["has"]), vg.tobool(y.f["has"])
            both = alg.b_and(hx, hy)
            r = alg.b_or(alg.b_and(alg.b_not(hx), alg.b_not(hy)), both if both is FALSE else alg.b_and(both, eqv(x.f["v"], y.f["v"])))
            return r if op == "==" else alg.b_not(r)
        if ox or oy:
            return default_less(I, x, y)
        if isinstance(x, (Seq, vg.Obj, vg.Str)) and type(x) == type(y):
            if op == "<":
                return default_less(I, x, y)
            r = default_eq(I, x, y)
            return r if op == "==" else alg.b_not(r)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return I.binop(op, x, y, "long")
        return NotImplemented
    if op == "=":
        v = I.deloc(I.ev(rest[0]))
        if on["k"] == "call" and short(on.get("q", "")) == "tie":
            r = I.ev(on)
            for i, z in enumerate(r.e):
                I.wr(z, v.e[i])
            return v
        l = I.lv(on)
        cur = I.rd(l) if not isinstance(l, vg.LIte) else None
        if isinstance(cur, vg.Refs):
            for i, z in enumerate(cur.e):
                I.wr(z, v.e[i])
            return v
        if isinstance(cur, vg.Obj) and cur.cls == "std::optional":
            v = to_optional(v)
        I.wr(l, v)
        return l
    if e.get("mcall") and e.get("arrow"):
        l = I.deref(I.ev(on))
    else:
        l = I.lv(on)
    s = I.rd(l)
    if isinstance(s, vg.Gate):
        raise vg.Und("container operation on a gated value")
    if isinstance(s, vg.Str):
        if name in ("size", "length"):
            return len(s.s)
        if name == "empty":
            return alg.b_const(not s.s)
        if op == "+=":
            v = I.deloc(I.ev(rest[0]))
            if isinstance(v, vg.Str):
                I.wr(l, vg.Str(s.s + v.s))
                return l
        if name == "operator[]" or op == "[]" or name in ("at", "front", "back"):
            k = num(I.ev(rest[0])) if rest else 0 if name == "front" else len(s.s) - 1
            if isinstance(k, int) and 0 <= k < len(s.s):
                return ord(s.s[k])
        if name in ("substr", "find", "compare", "starts_with", "ends_with", "rfind", "c_str", "data"):
            a = [I.deloc(I.ev(z)) for z in rest]
            if name in ("c_str", "data"):
                return s
            if name == "substr" and all(isinstance(z, int) for z in a):
                return vg.Str(s.s[a[0]:] if len(a) < 2 else s.s[a[0]:a[0] + a[1]])
            if a and isinstance(a[0], vg.Str):
                if name in ("find", "rfind") and len(a) == 1:
                    k = getattr(s.s, name)(a[0].s)
                    return k if k >= 0 else 2 ** 64 - 1
                if name in ("starts_with", "ends_with"):
                    return alg.b_const(s.s.startswith(a[0].s) if name[0] == "s" else s.s.endswith(a[0].s))
                if name == "compare" and len(a) == 1:
                    return (s.s > a[0].s) - (s.s < a[0].s)
        return vg.Opq("str", s, name)
    if isinstance(s, vg.Obj) and s.cls == "std::optional":
        if name in ("has_value", "operator bool"):
            return vg.tobool(s.f["has"])
        if name in ("value",):
            c = I.resolve(vg.tobool(s.f["has"]))
            if c is FALSE:
                raise vg.Thrown(None, "bad_optional_access")
            if c is not TRUE:
                raise vg.Und("value() of an optional that may be empty")
            return l.sub("v")
        if name in ("reset", "emplace"):
            I.wr(l, to_optional(vg.Opq("nullopt") if name == "reset" else I.make(vg.split_targs(e["cls"])[0], rest)))
            return None if name == "reset" else l.sub("v")
        if name == "value_or":
            return vg.vite(vg.tobool(s.f["has"]), s.f["v"], I.ev(rest[0]))
        return NotImplemented
    if not isinstance(s, Seq):
        if isinstance(s, Ptr) and name in ("get", "operator bool"):
            return s
        if isinstance(s, vg.Opq):
            return vg.Opq(*s.key, name, *[vkey(I.deloc(I.ev(a))) for a in rest])
        return NotImplemented
    n = len(s.e)
    ct = e.get("cls") or I.tu.T(on.get("t", -1))
    m = re.match(r"(?:const )?std::(?:unordered_)?(set|map)<", ct.strip())
    if m:
        r = assoc(I, m.group(1), name if not op else "operator" + op, l, s, vg.strip_t(ct), rest)
        if r is not NotImplemented:
            return r
    if name in ("operator[]", "at"):
        i = num(I.ev(rest[0]))
        if not isinstance(i, int):
            return I.sub_index(l, i)
        if not 0 <= i < n:
            if name == "at":
                raise vg.Thrown(None, "out_of_range")
            raise vg.OutOfBounds("operator[](%d) on %d elements" % (i, n))
        return l.sub(i)
    if name in ("size",):
        return n
    if name == "empty":
        return alg.b_const(n == 0)
    if name in ("begin", "cbegin", "data"):
        return Ptr(l.sub(0))
    if name in ("end", "cend"):
        return Ptr(l.sub(n))
    if name in ("rbegin", "crbegin"):
        return vg.RPtr(l.sub(n - 1))
    if name in ("rend", "crend"):
        return vg.RPtr(l.sub(-1))
    if name == "flip" and not rest:
        I.wr(l, Seq([alg.b_not(vg.tobool(x)) for x in s.e]))
        return None
    if name == "front":
        return l.sub(0)
    if name == "back":
        return l.sub(n - 1)
    if name in ("push_back", "emplace_back", "push_front", "emplace_front", "emplace"):
        pos, args_ = (None, rest) if name != "emplace" else (I.ev(rest[0]), rest[1:])
        t = (vg.split_targs(e.get("cls", "")) or [""])[0]
        if name.startswith("emplace") and (vg.strip_t(t) in I.tu.recbyd or t.startswith("Eigen::Matrix<")):
            v = I.make(t, args_)
        else:
            vals = [I.deloc(I.ev(a)) for a in args_]
            v = vals[0] if len(vals) == 1 else Seq(vals) if vals else vg.zero_of(I, t)
        k = len(I.rd(l).e) if name.endswith("back") else 0
        if pos is not None:
            if not isinstance(pos, Ptr) or not isinstance(pos.loc.p[-1], int):
                raise vg.Und("emplace")
            k = pos.loc.p[-1]
        s = I.rd(l)
        I.wr(l, Seq(s.e[:k] + (v,) + s.e[k:]))
        return l.sub(k) if pos is None else Ptr(l.sub(k))
    if name in ("pop_back", "pop_front"):
        if not s.e:
            raise vg.OutOfBounds("%s of an empty container" % name)
        I.wr(l, Seq(s.e[:-1] if name == "pop_back" else s.e[1:]))
        return None
    if name in ("reserve", "shrink_to_fit"):
        for a in rest:
            I.ev(a)
        return None
    if name == "clear":
        I.wr(l, Seq([]))
        return None
    if name == "resize":
        m = num(I.ev(rest[0]))
        if not isinstance(m, int):
            raise vg.Und("resize to a symbolic size")
        if m > 20000:
            raise vg.Und("huge resize")
        if len(rest) > 1:
            z = I.ev(rest[1])
        else:
            t = vg.split_targs(e.get("cls", ""))
            z = vg.zero_of(I, t[0]) if t else vg.UN
        I.wr(l, Seq((s.e + (z,) * max(0, m - n))[:m]))
        return None
    if name == "fill":
        v = I.ev(rest[0])
        I.wr(l, Seq([v] * n))
        return None
    if name == "assign":
        A = [I.ev(a) for a in rest]
        if isinstance(A[0], Ptr):
            I.wr(l, Seq(read_range(I, A[0], A[1])))
        elif len(A) == 1 and isinstance(A[0], Seq):
            I.wr(l, A[0])
        else:
            I.wr(l, Seq([A[1]] * num(A[0])))
        return None
    if name == "insert":
        A = [I.deloc(I.ev(a)) for a in rest]
        s = I.rd(l)
        if len(A) == 3 and isinstance(A[0], Ptr) and isinstance(A[1], Ptr):
            k = A[0].loc.p[-1]
            I.wr(l, Seq(s.e[:k] + tuple(read_range(I, A[1], A[2])) + s.e[k:]))
            return Ptr(l.sub(k))
        if len(A) == 2 and isinstance(A[0], Ptr):
            k = A[0].loc.p[-1]
            et = (vg.split_targs(vg.strip_t(ct)) or ["std::"])[0]
            il = isinstance(A[1], Seq) and ("initializer_list" in I.tu.T(rest[1].get("t", -1)) or rest[1]["k"] == "ilist" and not et.startswith(("std::", "disk::")))
            I.wr(l, Seq(s.e[:k] + (A[1].e if il else (A[1],)) + s.e[k:]))
            return Ptr(l.sub(k))
        if len(A) == 3 and isinstance(A[0], Ptr) and isinstance(A[1], int):
            k = A[0].loc.p[-1]
            I.wr(l, Seq(s.e[:k] + (A[2],) * A[1] + s.e[k:]))
            return Ptr(l.sub(k))
        raise vg.Und("insert")
    if name == "erase":
        A = [I.ev(a) for a in rest]
        k = A[0].loc.p[-1]
        k2 = A[1].loc.p[-1] if len(A) > 1 else k + 1
        s = I.rd(l)             # the arguments may have changed the container
        if not 0 <= k <= k2 <= len(s.e):
            raise vg.OutOfBounds("erase of [%s, %s) of %d elements" % (k, k2, len(s.e)))
        I.wr(l, Seq(s.e[:k] + s.e[k2:]))
        return Ptr(l.sub(k))
    if name == "swap":
        o = I.lv(rest[0])
        t = I.rd(o)
        I.wr(o, s)
        I.wr(l, t)
        return None
    return NotImplemented
