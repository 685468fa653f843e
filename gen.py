#!/usr/bin/env python3
"""derive properties.jsonl and MANIFEST.json from propdefs.py"""
import json, os
from propdefs import P
import propdefs
V = os.path.dirname(os.path.abspath(__file__))
NA = getattr(propdefs, "NA", {})
with open(V + "/properties.jsonl", "w") as f:
    for i, d in {**P, **NA}.items():
        assert len(d["title"]) <= 80, (i, len(d["title"]))
        assert d["statement"].count(". ") <= 2, i
        f.write(json.dumps({"id": i, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["qtext"]},
                            "why_tests_cant": d["why"], "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "technique": "solver-based checking: symbolic execution of the LLVM IR compiled from /repo's current tree; assertions over symbolic inputs decided by ANF/truth-table normal forms, z3 and CDCL SAT; counterexamples replayed natively",
                 "level": "other",
                 "level_note": "Bounded: " + d["bounds"] + " Outside: " + d["outside"]} for i, d in P.items()],
     "not_applicable": [{"property": i, "reason": d["reason"]} for i, d in NA.items()]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
