#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props/*.py."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(ROOT, "lib", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    at = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Constant, ast.JoinedStr, ast.BinOp)):
            try: at[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    c = dict(property=p["id"],
        quick_cmd="python3 bin/check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
        technique=at.get("TECHNIQUE", "TLA+ specification checked with TLC; TLC behaviours and generated cases replayed in the code, recorded traces validated against the specification"),
        level=at.get("LEVEL", "model_checking"),
        level_note=at.get("NOTE", "The specification is model checked within small constants; the code is checked on the executions replayed, each compared step by step with the specification."))
    checks.append(c)
m = dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="none", enable="no hooks: every observation is made through the public API and the written files", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ with TLC. See DESIGN.md. Findings: known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
