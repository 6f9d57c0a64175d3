#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
NOTE = ("Bounded: the SMT-backed symbolic executor decides every path of the compiled code for all inputs within these bounds. %s. Outside: %s. "
        "Trusts rustc/LLVM lowering (-O0 plus O1 passes), the executor and z3; sampled paths and all counterexamples are replayed on native dev and release builds.")
m = {"version": 1, "setup_cmd": "python3 checks/run.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                 "technique": "symbolic execution of the LLVM IR of the real crate with z3, bounded; counterexamples replayed natively",
                 "level": "model_checking", "level_note": NOTE % (s["bounds"].rstrip("."), s["outside"].rstrip("."))} for p, s in spec.PROPS.items()],
     "not_applicable": spec.NOT_APPLICABLE,
     "notes": "See DESIGN.md. Known findings and fixed defects: known_findings.json. No hooks are needed: the harnesses use the public API only."}
json.dump(m, open(os.path.join(spec.ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); print(len(m["checks"]), "checks")
