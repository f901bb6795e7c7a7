#!/usr/bin/env python3
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from props import PROPS
checks = []
for pid, P in PROPS.items():
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "bounded symbolic execution of the compiled crate (LLVM IR of /repo's current source) with z3 (QF_BV) deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for all values within these bounds: " + P["bounds_quick"] + ". Outside: " + P["outside"] + ". Trusts: the executor's LLVM IR semantics (sampled paths are compared with native runs), z3, rustc, and the mock transport.",
    })
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything goes through the public API. Defects found and repaired are in known_findings.txt."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
