#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, `checker list` and the
reasons for the properties that are not claimed."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk = sys.argv[1] if len(sys.argv) > 1 else "/tmp/chk"
rules = {}
for l in subprocess.run([chk, "list"], capture_output=True, text=True).stdout.splitlines():
    id, rule, trust = (l.split("\t") + ["", ""])[:3]
    rules[id] = (rule, trust)
NA = {
 "C35": "Termination for arbitrary compositions and user receivers is a global liveness property over unbounded numbers of goroutines and channels; the per-node obligations it rests on (every blocking operation can be ended, wakeups are never lost, ordering is propagated before a strictly ordered node) are decided by C22-C24.",
}
BASE = "Sound for the stated rule up to the documented model of sync, context, channels and the reasoning domains (integers as mathematical integers, user functions unconstrained); anything the analysis cannot decide is reported as a violation. It decides these obligations on every path of the current source, not sampled executions."
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    id = p["id"]
    if id in rules:
        r, t = rules[id]
        checks.append({"property": id, "quick_cmd": f"bash check.sh {id} quick", "thorough_cmd": f"bash check.sh {id} thorough",
            "technique": "static analysis: path-sensitive abstract interpretation over SSA with loop invariants and fork-join/channel effects" ,
            "level": "other", "level_note": "Decides: " + r + ". " + (("Assumes: " + t + ". ") if t else "") + BASE})
    else:
        na.append({"property": id, "reason": NA.get(id, "The machinery for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "cd checker && GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -mod=vendor -o /dev/null .",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the checks read /repo's source. Defects found and repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
