#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{HERE}/tools")
import props
ids = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    note = p.get("note") or ("Contracts on the real functions of /repo, every obligation discharged for all inputs of the harnesses named p*; "
                             + ("bounded stand-ins (named b*, not counted as proved): " + "; ".join(p["bounded"]) + ". " if p.get("bounded") else "")
                             + "Assumes the tool chain, the allocator model and the contracts listed under trusted_base in the evidence.")
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} --thorough",
                   "technique": p.get("technique", "contract-based deductive verification with Kani/CBMC: pre/postconditions and ghost state on the real functions"),
                   "level": "proof", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/stage.py",
     "hooks": {"guard": "cfg(kani)", "enable": "cargo kani sets cfg(kani) itself; every other build leaves it off",
               "source_commits": props.HOOKS},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": props.NOT_YET.get(i, "no check yet")} for i in ids if i not in props.PROPS]}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
