#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
NOTE = {
 "proof": "Contract harnesses over the real compiled functions of /repo: every obligation (asserted postconditions, absence of panics, overflow, out-of-bounds, unreachable calls) is discharged for all inputs of the contract's precondition. Harnesses with a loop that depends on the input length are bounded, listed with their bound in the evidence, and not counted as proved.",
 "other": "Contract harnesses over the real compiled functions of /repo, all bounded in the number of loop iterations (bounds per harness in the evidence): every obligation is discharged within the bound; nothing is counted as proved.",
}
checks = []
for pid, m in sorted(props.PROPS.items()):
    checks.append(dict(property=pid, quick_cmd=f"python3 tools/check.py {pid}",
        thorough_cmd=f"python3 tools/check.py {pid} --thorough",
        technique=m.get("technique", "contract-based deductive verification of the compiled functions (Kani/CBMC)"),
        level=m["level"], level_note=m.get("note", NOTE[m["level"]]) + " Trusts Kani, CBMC and CaDiCaL; assumptions are listed in the evidence."))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(props.NOT_APPLICABLE.items())]),
    open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
