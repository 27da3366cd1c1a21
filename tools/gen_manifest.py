#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the TECHNIQUE/NOTE constants of checks/*.py."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"],
                       thorough_cmd="bin/check %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c["TECHNIQUE"], level="model_checking", level_note=c["NOTE"]))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="Bounded exhaustive exploration of the real naima code; see DESIGN.md. "
               "No hooks in /repo are needed; the only commits there are fix: commits.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
