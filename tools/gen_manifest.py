#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a contract file in contracts/ is claimed, the others carry the reason in NA."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA, NOTE, HELD = {}, {}, set()
exec(open(os.path.join(ROOT, "tools", "manifest_data.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "contracts", i + ".spec")) and i not in NA and i not in HELD:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="contract-based deductive verification of the Go source (pre/postconditions, loop invariants, SMT)", level="proof",
            level_note=NOTE.get(i, "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, for all inputs and iterations.")
              + " Trusted: the verification-condition generator govc, go/ssa, the solvers, and the library contracts listed in the evidence; termination is not proved."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no contract discharged yet")))
m = dict(version=1, setup_cmd="cd govc && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o govc .", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
