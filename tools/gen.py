#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NA
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": ["public functions of the wolfram-parser crate"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
               "technique": "symbolic execution of the crate's LLVM IR, branches and assertions decided by Z3",
               "level": "model_checking", "level_note": p["note"]} for p in PROPS if p["id"] not in {n["property"] for n in NA}]
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NA,
         "notes": "Bounded: every verdict is for all values of the symbolic bytes/lexemes of the templates recorded in the evidence file. No hooks in /repo; fixes are fix: commits listed in known_findings.json."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
