#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
TECH = {
    "default": "differential runtime monitoring under ASan+UBSan: generated workloads, verdicts compared with an independent reference evaluator",
}
props = [json.loads(l) for l in open("properties.jsonl")]
man = {"version": 1, "setup_cmd": "python3 run.py --setup",
       "hooks": {"guard": "none", "enable": "no hooks: the harnesses observe valijson through its public API, callbacks and allocation functions", "source_commits": []},
       "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py --thorough " + p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", TECH["default"]), "level": c["level"],
                          "level_note": c.get("note", "Held on the executions of this run only (counts in the evidence file). Trusts the oracle in /verif/harness and the sanitizers; " + "; ".join(c.get("assumptions", [])))})
json.dump(man, open("MANIFEST.json", "w"), indent=1)
