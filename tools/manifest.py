"""Writes MANIFEST.json from the registry of checks (developer tool)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import props  # noqa: E402

NA = {
    "C21": "The two scanners are pure functions of one code object or syntax tree: no scheduling, "
           "time, I/O, fault or history can influence them, so a simulator has nothing to control "
           "(their use inside a build is covered by C01, C02 and C03).",
    "C22": "Text formatting is a pure function of a finished graph and its strings; simulation "
           "adds nothing over generating strings (completeness of the output under I/O faults "
           "is C16).",
}
LATER = "No check has been built for this property (yet)."

m = {"version": 1, "setup_cmd": "./check list",
     "checks": [], "not_applicable": [],
     "notes": "All checks: ./check run <id> [--tier quick|thorough] [--seed N]; "
              "./check replay <file> re-executes a violation. No hooks in /repo are needed."}
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check run {i} --tier quick",
            "thorough_cmd": f"./check run {i} --tier thorough",
            "technique": "deterministic simulation with fault injection: seeded histories, faults "
                         "and schedules against " + p.get("oracle", "a reference model"),
            "level": "exploration",
            "level_note": p.get("note", "") + "Seeded sampling of simulated runs, not exhaustive; "
            "trusts the reference model in dst/model.py and the simulated disk in dst/simfs.py; "
            "CPython 3.12 only."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, LATER)})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
