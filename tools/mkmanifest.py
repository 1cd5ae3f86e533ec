#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py, properties.jsonl and not_applicable.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import registry
na = json.load(open(H + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in registry.CHECKS: continue
    q = registry.CHECKS[i]("quick")
    checks.append(dict(property=i, quick_cmd="python3 /verif/check.py %s --tier quick" % i, thorough_cmd="python3 /verif/check.py %s --tier thorough" % i,
        technique=q.get("technique", "symbolic execution of the LLVM IR of the code in /repo, assertions decided by z3 (bit-vectors), counterexamples replayed natively"),
        level=q.get("level", "model_checking"), level_note=("Bounded: " + q["bounds"] + ". " + q.get("note", "")).strip()))
m = dict(version=1, setup_cmd="python3 /verif/check.py setup", checks=checks,
    not_applicable=[dict(property=i, reason=na.get(i, "check not built yet")) for i in ids if i not in registry.CHECKS])
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
