#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code: exhaustive schedule enumeration under a controlled scheduler with partial-order reduction and deviation bounds"
CHECKS = {
 "C15": (SCHED, "Every schedule (and timer firing) of small future scenarios within the recorded deviation budgets; race detector on the lower budgets."),
 "C16": (SCHED, "Every schedule of small sender/receiver/closer scenarios within the recorded deviation budgets; race detector on the lower budgets."),
 "C17": (SCHED, "Every schedule of small publisher/subscriber scenarios within the recorded deviation budgets; race detector on the lower budgets."),
 "C18": (SCHED, "Every schedule of small bus scenarios within the recorded deviation budgets, histories checked for linearizability."),
 "C19": (SCHED, "Every schedule of small setter/getter scenarios, most without any bound on deviations."),
}
NA = {}
exec(open(os.path.join(here, "tools", "checks.py")).read()) if os.path.exists(os.path.join(here, "tools", "checks.py")) else None
TRUST = " Trusts the instrumentation (channels, sync, atomics, time, net, os, rand replaced by modelled counterparts) and sequential consistency between instrumented operations."
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p][:2]
        lvl = CHECKS[p][2] if len(CHECKS[p]) > 2 else "model_checking"
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": lvl, "level_note": n + TRUST})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "The checks rewrite a copy of /repo's working tree (instr/) against a model-checking runtime (mc/) and explore it; /repo carries no hooks, only fix: commits. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
