#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, specs.py and the reasons below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from specs import SPECS
NA = {
    "C21": "RleTree::drain is declared but its iterator is todo!() at this commit (every use panics): there is no implementation to encode",
    "C22": "a statement about which types implement Send and Sync: it is decided by rustc's trait solver when a user's program is compiled, no execution of the code can observe it, so there is nothing for symbolic execution to encode",
}
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled Rust (LLVM IR regenerated from /repo) with Z3 deciding branches, assertions and memory accesses; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the bounds listed in evidence (histories, tree sizes, fan-outs, index ranges); says nothing outside them. " + ("Outside: " + s["outside"] + ". " if s.get("outside") else "") + "Trusts svx, Z3 and rustc's lowering to IR; sampled paths are compared with native runs each time.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses use the public API only. known-findings.json lists genuine defects found."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
