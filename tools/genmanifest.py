#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
ENUM = "exhaustive explicit enumeration of a bounded statement space on the real code, against a reference model"
NOTE = ("Every member of the stated finite spaces is executed on the real code and compared with the reference model; "
        "trusted: the model and observation code in /verif/mc, the Go toolchain. Nothing is claimed beyond the bounds in DESIGN.md.")
SEQ = "exhaustive enumeration of all operation sequences up to a depth on the real code, against a reference model"
SCHED = "stateless model checking of the implementation: all interleavings up to a preemption bound under a controlled scheduler, race detector on each"
T = {}
for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C16 C19 C20 C21 C25 C29 C30 C31 C32 C33".split(): T[c] = ENUM
for c in "C14 C17 C18 C22 C23 C24 C27".split(): T[c] = SEQ
for c in "C15 C26 C28".split(): T[c] = SCHED
built = set(open(os.path.join(here, "tools", "claimed.txt")).read().split())
m = {"version": 1, "setup_cmd": "bash /verif/tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Checks build the model checker in /verif/mc against /repo's working tree in a scratch directory; no hooks are committed in /repo (the scheduler build instruments a copy of the sources through go build -overlay)."}
for p in props:
    if p in built:
        m["checks"].append({"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": "model checking applies, but its check is not finished yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
