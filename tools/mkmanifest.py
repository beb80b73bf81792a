#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
PURE = ("A pure function of its arguments: no I/O, time, scheduling, randomness or second party for a simulator to "
        "control, so deterministic simulation would only be random input generation under another name. %s")
NA = {
    "C19": PURE % "The conversions are exercised, but not decided, by the header lines the C01 simulation reads.",
    "C20": PURE % "The combinations are decided as far as the observation reader applies them, under C01.",
    "C21": PURE % "Antenna matching is decided as far as the ANTEX lookups depend on it, under C09 and C10.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 driver.py build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seams are the C library calls (open, read, lseek, ...; errno), the allocator and the compiler's basic-block instrumentation, all provided by /verif/sim/core.cpp. See DESIGN.md.",
}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 driver.py check %s --tier quick" % i,
            "thorough_cmd": "python3 driver.py check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": p.get("note", "Seeded search over simulated runs of the real library code against an executable model; evidence over what was sampled, not a proof. Trusts the model, the simulated disk and the ggdatetime stand-in."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
