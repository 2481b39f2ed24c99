#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from proptext.py and specs.py."""
import json, sys
sys.path.insert(0, "/verif")
import proptext, specs
with open("/verif/properties.jsonl", "w") as f:
    for pid, d in proptext.P.items():
        assert len(d["title"]) <= 80, (pid, len(d["title"]))
        f.write(json.dumps({"id": pid, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["quant"]},
            "why_tests_cant": d["why"], "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": [], "not_applicable": [],
     "notes": "All checks symbolically execute the LLVM IR of /repo's current source with /verif/engine and decide every branch and assertion with z3; see DESIGN.md. No hooks in /repo are needed."}
for pid, d in proptext.P.items():
    if pid in specs.PROPS:
        m["checks"].append({"property": pid, "quick_cmd": f"./check.py {pid}", "thorough_cmd": f"./check.py {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
            "technique": "symbolic execution of the compiled LLVM IR with z3 (bounded model checking), counterexamples replayed natively", "level": "model_checking",
            "level_note": "bounded: " + d["note"] + "; exhaustive within the bounds the evidence file states, nothing beyond them"})
    else:
        m["not_applicable"].append({"property": pid, "reason": proptext.NA[pid]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
