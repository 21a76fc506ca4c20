#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "model checking: exhaustive bounded enumeration of "
NOTE = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "SLANG_VERIF_UNUSED", "enable": "no hooks are needed: the checks drive the shipped executables through their command line; nothing in /repo is guarded", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild slang, slang-dbg and slang-pkg from a content mirror of /repo's working tree (_build/, git-ignored) and replay every model trace on those executables."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
