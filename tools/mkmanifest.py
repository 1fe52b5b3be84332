#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harness directory"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
notes = json.load(open(V + "/tools/notes.json"))
checks = []
for p in props:
    i = p["id"]
    if i in na or not glob.glob(V + "/harness/%s*.cpp" % i.lower()):
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "bounded symbolic execution of the compiled library code (LLVM IR) with SMT (z3, cvc5)",
        "level": "model_checking",
        "level_note": "Holds for all inputs within the stated bounds (evidence: bounds). Values are exact reals unless the harness says fp. " + notes.get(i, "") + " Trusted: clang's IR, the executor, z3/cvc5; counterexamples are replayed natively, path models are validated natively."})
missing = [{"property": p["id"], "reason": na.get(p["id"], "no check built yet")} for p in props if p["id"] not in {c["property"] for c in checks}]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": missing,
           "notes": "Engine in /verif/engine, harnesses in /verif/harness; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(missing), "not claimed")
