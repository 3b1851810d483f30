#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
names = {"model": "generated histories against a reference model / oracle (rapid, shrinking)",
         "sched": "generated thread schedules under a cooperative scheduler that owns every lock and atomic operation",
         "race": "generated concurrent programs on real goroutines under the race detector",
         "fake": "generated histories in virtual time (Go's fake clock)"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in conf:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    kinds = []
    for m in conf[i]["modes"]:
        k = m.split("-")[0]
        if k not in kinds:
            kinds.append(k)
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "property-based testing: " + "; ".join(names[k] for k in kinds),
                   "level": "exploration",
                   "level_note": "Searches generated cases against an explicit oracle; finds counterexamples within the generated sizes, does not prove absence. Trusts the Go toolchain, rapid and the harness's models" + (", and that the instrumented build (sync and sync/atomic replaced) behaves like the real one" if "sched" in kinds else "") + "."})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation is done with go build overlays. /repo carries only fix: commits (see known_findings.txt)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
