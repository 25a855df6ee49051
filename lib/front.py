"""Front end: builds the AST exporter if needed, runs it on probe translation
units against the *current* /repo tree and loads the typed, instantiated AST."""
import os, sys, json, subprocess, hashlib, time, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PROBES = os.path.join(VERIF, "probes")
LIB = REPO + "/libdiskpp"
INC = LIB + "/include/diskpp/"


class AnalysisError(Exception):
    pass


def flags(extra=()):
    return ["-std=c++20", "-I" + LIB + "/include",
            "-I" + LIB + "/contrib/jburkardt/include", "-I" + LIB + "/contrib/triangle",
            "-I/usr/include/eigen3", "-I" + PROBES,
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-fno-access-control",
            "-DNDEBUG", "-Wno-c++11-narrowing", "-ferror-limit=0"] + list(extra)


def ensure_exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "exporter.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "exporter-" + h)
    if os.path.exists(exe):
        return exe
    cl = "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1"
    tmp = exe + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-I/usr/lib/llvm-18/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           src, "-o", tmp, cl, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the exporter:\n" + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


class TU:
    """One exported translation unit."""

    def __init__(self, data, name):
        self.name = name
        self.d = data
        self.types = data["types"]
        self.files = data["files"]
        self.included = data["included"]
        self.functions = data["functions"]
        self.byid = {f["fn"]: f for f in self.functions}
        self.records = data["records"]
        self.globals = data["globals"]
        self.gbyid = {g["id"]: g for g in self.globals}
        self.enums = data["enums"]
        self.defs = data["defs"]
        self.errors = data.get("errors", 0)
        self.byq = {}
        for f in self.functions:
            self.byq.setdefault(f["q"], []).append(f)
        self.recbyd = {r["d"]: r for r in self.records}

    def T(self, i):
        return self.types[i] if isinstance(i, int) and i >= 0 else ""

    def fns(self, pat, file=None):
        """functions whose fully qualified name matches the regex `pat`"""
        rx = re.compile(pat + r"\Z")
        return [f for q, fl in self.byq.items() if rx.match(q) for f in fl
                if file is None or re.search(file, self.files[f["file"]])]

    def file(self, f):
        p = self.files[f["file"]]
        return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p

    def where(self, f, node=None):
        l = f["l"] if node is None or not isinstance(node, dict) or "l" not in node else node["l"]
        return "%s:%s" % (self.file(f), l)


def export(src, name=None, prefixes=None, extra=()):
    exe = ensure_exporter()
    name = name or os.path.splitext(os.path.basename(src))[0]
    out = os.path.join(BUILD, "%s.%d.json" % (name, os.getpid()))
    pf = prefixes or [REPO + "/", os.path.dirname(os.path.abspath(src)) + "/"]
    cmd = [exe, out, src, ",".join(pf), "--"] + flags(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(out):
        raise AnalysisError("front end failed on %s:\n%s" % (src, r.stderr[-3000:]))
    with open(out) as fp:
        data = json.load(fp)
    os.unlink(out)
    errs = [l for l in r.stderr.splitlines() if ": error:" in l or ": fatal error:" in l]
    data["errors"] = errs
    return TU(data, name)


def probes(*names, extra=()):
    """export several probes in parallel -> list of TU"""
    ensure_exporter()

    def one(n):
        if os.path.isabs(n):
            return export(n, extra=extra)
        return export(os.path.join(PROBES, n + ".cpp"), extra=extra)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, names))


# ------------------------------------------------------------------ tree helpers
def kids(n):
    """direct child nodes of an exported AST node"""
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed(list(kids(x))))
        elif isinstance(x, list):
            st.extend(reversed(x))


def calls(n):
    for x in walk(n):
        if x.get("k") in ("call", "ctor"):
            yield x


def short(q):
    return q.rsplit("::", 1)[-1] if q else ""


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.ob = []          # (id, status, where, text)
        self.notes = []
        self.cov = {}
        self.level = "other"

    def ok(self, oid, where, text=""):
        self.ob.append((oid, "discharged", where, text))

    def bad(self, oid, where, text):
        self.ob.append((oid, "violated", where, text))

    def und(self, oid, where, text=""):
        self.ob.append((oid, "undecided", where, text))

    def check(self, cond, oid, where, text):
        (self.ok if cond else self.bad)(oid, where, text)
        return cond

    def note(self, s):
        self.notes.append(s)

    def finish(self, rule, assumptions=(), min_obligations=1, analysed=None):
        n = {"discharged": 0, "violated": 0, "undecided": 0}
        seen = {}
        for o in self.ob:
            seen.setdefault((o[0], o[2]), []).append(o)
        obs = []
        for k, v in seen.items():
            worst = sorted(v, key=lambda o: {"violated": 0, "undecided": 1, "discharged": 2}[o[1]])[0]
            obs.append(worst)
            n[worst[1]] += 1
        kf = known_findings(self.prop)
        vio = []
        for o in obs:
            if o[1] != "violated":
                continue
            hit = None
            for k in kf:
                if o[0] == k:
                    hit = k
            if hit:
                print("KNOWN-FINDING: property=%s %s %s: %s" % (self.prop, o[0], o[2], o[3]))
            else:
                vio.append(o)
        cov = {
            "explanation": rule,
            "obligations": len(obs), "discharged": n["discharged"], "undecided": n["undecided"],
            "violated": n["violated"],
            "samples": [{"obligation": o[0], "status": o[1], "where": o[2], "detail": o[3][:300]} for o in obs[:40]],
            "undecided_list": [{"obligation": o[0], "where": o[2], "detail": o[3][:300]} for o in obs if o[1] == "undecided"][:60],
            "violations": [{"obligation": o[0], "where": o[2], "detail": o[3][:600]} for o in obs if o[1] == "violated"],
        }
        if self.tier == "thorough":
            cov["all_obligations"] = [{"obligation": o[0], "status": o[1], "where": o[2]} for o in obs]
        cov.update(self.cov)
        if analysed:
            cov["analysed"] = analysed
        if self.notes:
            cov["notes"] = self.notes[:200]
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": self.level, "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 3), "violations": len(vio)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)" %
              (self.prop, len(obs), n["discharged"], n["undecided"], n["violated"], time.time() - self.t0))
        if vio:
            for o in vio[:20]:
                print("  violated %s at %s: %s" % (o[0], o[2], o[3]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if n["discharged"] < min_obligations:
            print("ERROR: only %d obligations discharged, %d expected: the anchors of this rule are gone"
                  % (n["discharged"], min_obligations), file=sys.stderr)
            return 2
        return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
