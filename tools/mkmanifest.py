#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check has been built for it yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s" % p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="TLA+ specification (%s) model-checked with TLC; traces of the real code validated against it (%s)" % (
            ", ".join(sorted({d["module"] for d in c["design"]})), c["trace"]),
        level="model_checking",
        level_note=c.get("note", "Design specification checked exhaustively within the constants of its cfg; the code is bound by trace "
                   "validation of the executions the driver generates (sanitizer build), so a defect that needs an input outside the generated families is not seen.")))
m = dict(version=1, setup_cmd="sh bin/setup.sh",
    hooks=dict(guard="SLSM_TRACE", enable="check.py compiles /repo/src with -DSLSM_TRACE and links slsm_trace_pop from harness/main.cpp",
               source_commits=[subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=guarded trace hook"], text=True).strip().split("\n")[0]]),
    checks=checks, not_applicable=na,
    notes="All checks are deterministic for a given VERIF_SEED. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
