#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # property records
CLAIM = {}      # id -> (technique, level, note)
NA = {}         # id -> reason
H = "libdiskpp/include/diskpp/"


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith(("libdiskpp", "apps", "unit")) else H + f for f in files],
                          "mechanism": [{"name": n, "where": w if w.startswith(("libdiskpp", "apps", "unit")) else H + w} for n, w in mech],
                          **({"state": state} if state else {})}})
    if claim:
        CLAIM[id] = claim
    else:
        NA[id] = na or "no check has been built for this property yet"


exec(open(os.path.join(V, "tool", "props.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import front; print(front.ensure_exporter())\"",
       "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                   "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": t, "level": l, "level_note": n}
                  for i, (t, l, n) in sorted(CLAIM.items())],
       "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CLAIM), "claimed")
