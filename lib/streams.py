"""Reading files: std::ifstream, istringstream and the memory-mapped reader over a file given as lines of tokens.
A token is a word (str), an integer, or an arithmetic value (a coordinate); every line ends with a newline."""
import itertools
import re
import alg
from alg import TRUE, FALSE

FAIL, EOF = 4, 2
COUNT = itertools.count()
STRTO = {p + n for p in ("", "std::") for n in ("strtod", "strtof", "strtold", "strtol", "strtoul", "strtoll", "strtoull")}


class Line:
    """a line of a file, as a string"""
    __slots__ = ("t",)

    def __init__(self, t): self.t = tuple(t)
    def __eq__(self, o): return isinstance(o, Line) and self.t == o.t
    def __hash__(self): return hash(self.t)

    @property
    def s(self):
        return " ".join(str(x) for x in self.t)


def text(I, v):
    import vg
    v = I.deloc(v)
    if isinstance(v, (vg.Str, Line)):
        return v
    raise vg.Und("a string that is not known")


def stream(lines, opened=True):
    import vg
    return vg.Obj("<stream>", {"lines": Box(lines), "row": 0, "col": 0, "state": 0 if opened else FAIL, "open": bool(opened), "mine": True})


class Box:
    """immutable content shared by the copies of a stream"""
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Box) and self.v is o.v
    def __hash__(self): return id(self.v)


def at(s):
    """position of the next token, skipping the ends of lines"""
    L, r, c = s.f["lines"].v, s.f["row"], s.f["col"]
    while r < len(L) and c >= len(L[r]):
        r, c = r + 1, 0
    return r, c


def moved(s, **kw):
    import vg
    f = dict(s.f)
    f.update(kw)
    return vg.Obj(s.cls, f)


def is_number(t):
    return not isinstance(t, str)


def conv(I, tok, ty):
    """value of a token read into a variable of type ty, or None"""
    if ty.startswith(("std::basic_string", "std::__cxx11::basic_string", "std::string")):
        import vg
        return vg.Str(tok if isinstance(tok, str) else str(tok))
    if not is_number(tok):
        return None
    if re.match(r"(unsigned|int|long|size_t|short|bool)", ty):
        return tok if isinstance(tok, int) else None
    return tok


def read_into(I, sl, node):
    """stream >> variable"""
    import vg
    s = I.rd(sl)
    if not isinstance(s, vg.Obj) or s.cls != "<stream>":
        raise vg.Und("input from something that is not a stream")
    def garbage():
        # the variable keeps its value, or the lack of one
        if not t.startswith("std::"):
            dst = I.lv(node)
            try:
                old = I.rd(dst)
            except vg.Und:
                old = vg.UN
            if old is vg.UN:
                I.wr(dst, 1000003 + 17 * next(COUNT))
    t = vg.strip_t(I.tu.T(node.get("t", -1)))
    if s.f["state"] & FAIL:
        garbage()
        return
    r, c = at(s)
    L = s.f["lines"].v
    if r >= len(L):
        garbage()
        I.wr(sl, moved(s, row=r, col=0, state=s.f["state"] | FAIL | EOF))
        return
    v = conv(I, L[r][c], t)
    dst = I.lv(node)
    if v is None:
        I.wr(dst, 0)
        I.wr(sl, moved(s, row=r, col=c, state=s.f["state"] | FAIL))
        return
    I.wr(dst, v)
    # a string stream ends right behind its last token, a file behind the newline
    end = s.f.get("string") and r == len(L) - 1 and c + 1 >= len(L[r])
    I.wr(sl, moved(s, row=r, col=c + 1, state=s.f["state"] | (EOF if end else 0)))


def opened(I, name):
    n = text(I, name)
    files = getattr(I, "files", None)
    if files is None:
        import vg
        raise vg.Und("reading a file")
    return files.get(n.s)


def ctor(I, q, e, t):
    """constructors of streams; NotImplemented for anything else"""
    import vg
    t = vg.strip_t(t)
    if getattr(I, "files", None) is None:
        return NotImplemented
    if re.match(r"std::basic_ifstream<", t):
        if not e["a"]:
            return stream([], False)
        c = opened(I, I.ev(e["a"][0]))
        return stream(c or [], c is not None)
    if re.match(r"std::(__cxx11::)?basic_istringstream<", t):
        if not e["a"]:
            return moved(stream([]), string=True)
        v = I.deloc(I.ev(e["a"][0]))
        if isinstance(v, vg.Obj) and v.cls == "<stream>":
            return v
        v = text(I, v)
        return moved(stream([v.t if isinstance(v, Line) else tuple(v.s.split())]), string=True)
    if re.match(r"std::(__cxx11::)?basic_regex<", t):
        return I.ev(e["a"][0])
    if t == "mapped_file":
        c = opened(I, I.ev(e["a"][0])) if e["a"] else None
        return vg.Obj("<mapped>", {"toks": Box([x for ln in (c or []) for x in ln]), "open": c is not None})
    if t == "std::thread":
        if not e["a"]:
            return vg.Obj("<thread>", {"id": 0})
        if getattr(I, "threads", None) is None:
            I.threads = Threads(I)
        return vg.Obj("<thread>", {"id": I.threads.start(I.ev(e["a"][0]))})
    return NotImplemented


class Threads:
    """accesses of the threads that have been started and not joined, by object and path; the thread bodies are evaluated when they
    are started, the accesses of two threads that live at the same time conflict when one of them writes"""
    def __init__(self, I):
        self.I, self.live, self.n = I, {}, 0
        self.rd0, self.wr0 = I.rd, I.wr
        self.cur = None
        I.rd, I.wr = self.rd, self.wr

    def rd(self, loc):
        if self.live or self.cur is not None:
            self.note(loc, False)
        return self.rd0(loc)

    def wr(self, loc, x):
        if self.live or self.cur is not None:
            self.note(loc, True)
        return self.wr0(loc, x)

    def note(self, loc, w):
        import vg
        if not isinstance(loc, vg.Loc):
            return
        if self.cur is not None:
            self.cur.add((loc.a, loc.p, w))
        for acc in self.live.values():
            self.against(acc, loc.a, loc.p, w)

    def against(self, acc, a, p, w):
        import vg
        for b, q, v in acc:
            if a == b and (v or w) and p[:len(q)] == q[:len(p)]:
                raise vg.OutOfBounds("two threads access the same object%s and one of them writes it"
                                     % (" (%s)" % ".".join(str(k) for k in (p if len(p) > len(q) else q))[-40:]))

    def start(self, fv):
        self.n += 1
        outer, self.cur = self.cur, set()
        self.I.call_value(fv, [])
        acc, self.cur = self.cur, outer
        self.live[self.n] = acc
        return self.n


class Pos:
    """pointer into the tokens of a mapped file"""
    __slots__ = ("b", "i")

    def __init__(self, b, i): self.b, self.i = b, i
    def __eq__(self, o): return isinstance(o, Pos) and (self.b, self.i) == (o.b, o.i)
    def __hash__(self): return hash((self.b, self.i))


def call(I, q, name, e, want):
    import vg
    if getattr(I, "files", None) is None:
        return NotImplemented
    nodes = ([e["o"]] if isinstance(e.get("o"), dict) else []) + list(e["a"])
    op = e.get("op")
    if op == ">>" and len(nodes) == 2 and re.match(r"std::(basic_istream|operator>>)", q):
        sl = I.lv(nodes[0])
        if I.tu.T(nodes[1].get("t", -1)).find("basic_istream<") >= 0 or nodes[1].get("k") == "ref" and str(nodes[1].get("q", "")).startswith("std::ws"):
            s = I.rd(sl)
            r, c = at(s)
            if r >= len(s.f["lines"].v):
                s = moved(s, row=r, col=0, state=s.f["state"] | EOF)
            else:
                s = moved(s, row=r, col=c)
            I.wr(sl, s)
            return sl
        read_into(I, sl, nodes[1])
        return sl
    if q == "std::getline" and len(nodes) >= 2:
        sl, dst = I.lv(nodes[0]), I.lv(nodes[1])
        s = I.rd(sl)
        L, r, c = s.f["lines"].v, s.f["row"], s.f["col"]
        if s.f["state"] & FAIL:
            return sl
        if r >= len(L):
            I.wr(dst, vg.Str(""))
            I.wr(sl, moved(s, state=s.f["state"] | FAIL | EOF))
            return sl
        I.wr(dst, Line(L[r][c:]))
        I.wr(sl, moved(s, row=r + 1, col=0))
        return sl
    m = re.match(r"std::(?:__cxx11::)?basic_(ifstream|istream|istringstream|ios|fstream)<.*>::(.*)$", q) or re.match(r"std::(ios_base)::(.*)$", q)
    if m and nodes:
        f = m.group(2)
        o = nodes[0]
        if op == "=":
            v = I.deloc(I.ev(nodes[1]))
            I.wr(I.lv(o), v)
            return v
        v = I.deloc(I.ev(o))
        if not isinstance(v, vg.Obj) or v.cls != "<stream>":
            return NotImplemented
        st = v.f["state"]
        if f == "is_open":
            return vg_bool(v.f["open"])
        if f == "open":
            c = opened(I, I.ev(nodes[1]))
            I.wr(I.lv(o), stream(c or [], c is not None))
            return vg.UN
        if f == "close":
            I.wr(I.lv(o), moved(v, open=False))
            return vg.UN
        if f == "clear":
            I.wr(I.lv(o), moved(v, state=0))
            return vg.UN
        if f == "eof":
            return vg_bool(st & EOF)
        if f == "good":
            return vg_bool(st == 0)
        if f in ("fail", "operator!") or op == "!":
            return vg_bool(st & FAIL)
        if f == "bad":
            return FALSE
        if f == "operator bool":
            return vg_bool(not st & FAIL)
        if f == "rdstate":
            return st
        if f == "peek":
            r, c = at(v)
            if r >= len(v.f["lines"].v) or st & FAIL:
                I.wr(I.lv(o), moved(v, state=st | EOF))
                return -1
            return ord(str(v.f["lines"].v[r][c])[0])
        raise vg.Und("stream member " + f)
    if op == "!" and len(nodes) == 1 and "basic_ios" in q:
        return vg_bool(I.deloc(I.ev(nodes[0])).f["state"] & FAIL)
    if q == "std::regex_match":
        s, p = text(I, I.ev(nodes[0])), text(I, I.ev(nodes[1]))
        return vg_bool(re.fullmatch(p.s, s.s) is not None)
    if q == "isdigit" or q == "std::isdigit":
        v = vg.num(I.ev(nodes[0]))
        if isinstance(v, int):
            return int(48 <= v <= 57)
        raise vg.Und("isdigit of an unknown character")
    if q.startswith("std::thread::"):
        v = I.deloc(I.ev(nodes[0]))
        if not isinstance(v, vg.Obj) or v.cls != "<thread>":
            return NotImplemented
        if name == "join":
            I.threads.live.pop(v.f["id"], None)
            return vg.UN
        if name == "joinable":
            return vg_bool(v.f["id"] in I.threads.live)
        raise vg.Und("std::thread::" + name)
    if q.startswith("mapped_file::"):
        v = I.deloc(I.ev(nodes[0]))
        if not isinstance(v, vg.Obj) or v.cls != "<mapped>":
            return NotImplemented
        if name == "is_open":
            return vg_bool(v.f["open"])
        if name == "mem":
            if not v.f["open"]:
                raise vg.OutOfBounds("the contents of a file that could not be opened are read")
            return Pos(v.f["toks"], 0)
    if q.startswith("std::operator") and op in ("&", "|") and "_Ios" in I.tu.T(nodes[0].get("t", -1)):
        a, b = vg.num(I.ev(nodes[0])), vg.num(I.ev(nodes[1]))
        return a & b if op == "&" else a | b
    return NotImplemented


def strto(I, q, e):
    """strtod, strtoul, ... at a position of a mapped file"""
    import vg
    p = I.deloc(I.ev(e["a"][0]))
    if not isinstance(p, Pos):
        return NotImplemented
    end = I.deloc(I.ev(e["a"][1]))
    tok = p.b.v[p.i] if p.i < len(p.b.v) else None
    ok = tok is not None and is_number(tok) and (isinstance(tok, int) or q.replace("std::", "") in ("strtod", "strtof", "strtold"))
    if isinstance(end, vg.Ptr) and end.loc is not None:
        I.wr(end.loc, Pos(p.b, p.i + 1) if ok else p)
    return tok if ok else 0


def vg_bool(x):
    return TRUE if x else FALSE
