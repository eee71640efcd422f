#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))}
REAL = "bounded exhaustive exploration of the real code against an independent reference model"
CHECKS = {
 "C01": "model checking: exhaustive enumeration of clocks and instants on the real clock against a search-based model",
 "C02": "model checking: stateless exploration of all schedules of time and polls of the real stream, with a preemption bound",
 "C03": "model checking: " + REAL, "C04": "model checking: " + REAL,
 "C05": "model checking: " + REAL, "C06": "model checking: " + REAL, "C07": "model checking: " + REAL,
 "C08": "model checking: exhaustive enumeration of definition histories over the forks, run through the real generator, against a model of inheritance",
 "C09": "model checking: exhaustive enumeration of field histories over the forks, run through the real generator, against a model of the types",
}
for i in "C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28".split():
    CHECKS[i] = "model checking: exhaustive enumeration of bounded states and operations, each applied to the real transition function and to an independent reference model, comparing the whole resulting state"
CHECKS["C44"] = "model checking: exhaustive enumeration of single and paired changes of block fields, each applied to the real transition function, with a monitor for crashes"
for i in "C29 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39 C40 C41 C42 C43".split():
    CHECKS[i] = "model checking: " + REAL
NOTES = {}
exec(open(os.path.join(root, "tools", "checks.py")).read()) if os.path.exists(os.path.join(root, "tools", "checks.py")) else None
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for id in sorted(props):
    if id in CHECKS:
        m["checks"].append({"property": id, "quick_cmd": f"bash check.sh {id} quick", "thorough_cmd": f"bash check.sh {id} thorough",
          "technique": CHECKS[id], "level": "model_checking",
          "level_note": NOTES.get(id, "exhaustive within the bounds the evidence file lists; every explored case is executed on the real code and compared with the reference model")})
    else:
        m["not_applicable"].append({"property": id, "reason": NA.get(id, "check not built yet") if "NA" in globals() else "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
