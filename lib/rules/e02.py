"""E02: headers define nothing that may be defined only once in a program.
Every header of the library is parsed (the ones that need lua, gmsh, hdf5, silo or a solver library as far as that goes without
them); every function and variable definition found in one of them must be a template, inline, constexpr or of internal linkage."""
import os
import re
import front
from concurrent.futures import ThreadPoolExecutor

PRELUDE = ["<cassert>", "<cstdint>", "<cstddef>", "<cstring>", "<fstream>", "<iostream>", "<iterator>", "<map>", "<memory>", "<optional>", "<regex>",
           "<set>", "<stdexcept>", "<string>", "<thread>", "<vector>", "<Eigen/Dense>", "<Eigen/Sparse>", "<Eigen/StdVector>"]
COMMON = ["common/eigen.hpp", "geometry/geometry.hpp", "mesh/mesh.hpp", "mesh/point.hpp", "quadratures/quadratures.hpp", "bases/bases.hpp"]


def headers():
    root = os.path.join(front.REPO, "libdiskpp", "include")
    out = []
    for d, _, fs in os.walk(os.path.join(root, "diskpp")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith((".hpp", ".h", ".hh", ".ipp")):
                out.append(os.path.relpath(p, root))
            elif "." not in f:
                with open(p, "rb") as fp:
                    if b"#include" in fp.read():
                        out.append(os.path.relpath(p, root))
    return sorted(out)


def unit(h, text):
    p = os.path.join(front.BUILD, "e02_%d_%s.cpp" % (os.getpid(), re.sub(r"\W", "_", h)))
    with open(p, "w") as fp:
        fp.write(text)
    try:
        return front.export(p, prefixes=[front.REPO + "/libdiskpp/include/"])
    finally:
        os.unlink(p)


def scan(tu):
    """(file, line, what, name) of the definitions that a second translation unit may not repeat; the number of definitions"""
    bad, n = [], {}
    for d in tu.defs:
        f = tu.files[d["file"]]
        n[f] = n.get(f, 0) + 1
        if d.get("inl") or d.get("cexpr") or not d.get("ext") or d.get("tmpl") and not d.get("spec"):
            continue
        bad.append((f, d["l"], "function", d["q"]))
    for g in tu.globals:
        f = tu.files[g["file"]]
        n[f] = n.get(f, 0) + 1
        if g.get("slocal") or g.get("inl") or g.get("cexpr") or g.get("tmpl") or not g.get("ext") or not g.get("def"):
            continue
        bad.append((f, g["l"], "variable", g["q"]))
    return bad, n


def main(rep):
    inc = lambda hs: "".join("#include %s\n" % h if h[0] == "<" else '#include "%s"\n' % h for h in hs)
    base = inc(PRELUDE) + inc("diskpp/" + c for c in COMMON)
    front.ensure_exporter()
    H = headers()
    tus = {"(common)": unit("common", base + inc(["diskpp/methods/hho", "diskpp/loaders/loader.hpp"]))}
    seen = {os.path.relpath(f, os.path.join(front.REPO, "libdiskpp", "include")) for f in tus["(common)"].included}
    rest = [h for h in H if h not in seen]
    with ThreadPoolExecutor(8) as ex:
        for h, t in zip(rest, ex.map(lambda h: unit(h, base + inc([h])), rest)):
            tus[h] = t
    bad, count = {}, {}
    for t in tus.values():
        b, n = scan(t)
        for x in b:
            bad.setdefault(x[0], set()).add(x[1:])
        for f, k in n.items():
            count[f] = max(count.get(f, 0), k)
    for h in H:
        f = os.path.join(front.REPO, "libdiskpp", "include", h)
        for key in (f, os.path.relpath(f, front.REPO), h):
            if key in count or key in bad:
                f = key
        B = sorted(bad.get(f, ()))
        rel = os.path.join("libdiskpp", "include", h)
        if not B:
            rep.ok("header/" + h, rel, "%d definitions" % count.get(f, 0))
        for l, what, q in B:
            rep.bad("header/%s/%s" % (h, q), "%s:%d" % (rel, l), "the header defines the %s %s, which is not inline: two translation units that include it do not link" % (what, q))
    return rep.finish("every function and variable definition in a header is a template, inline, constexpr or of internal linkage",
                      ["headers for absent libraries are analysed as far as the parser recovers"],
                      analysed={"headers": len(H), "units": len(tus), "definitions": sum(count.values())})
