"""Writes MANIFEST.json from the registry and the properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import core  # noqa: E402

NA = {
    "C25": "A pure function of one value (serialize, then deserialize): no schedule, clock, I/O, fault or history for a simulator to control. Deciding it would be input generation, not simulation.",
}
NOTES = {
    "sched": "scheduler histories of scripted agents against a reference model of due times, checked at each activation",
    "lockstep": "each seeded run is compared with a twin run without the wrapper",
    "order": "the same population under many seeds; occurrence of every relative order",
    "fsm": "random state machines against a reference state machine",
    "mail": "random senders and receivers, re-entrant and failing handlers, against reference mailboxes",
    "network": "histories of births, deaths, edges and queries against a reference graph and population",
    "limits": "random populations and limits given in code, files and the command line, against a reference run; hang budget",
    "collect": "records compared with values sampled independently after each step",
    "export": "sequences of runs on a simulated disk with injected errors, crashes and strange clocks, against the records in memory",
    "lifecycle": "recorded calls to exporters compared with the cartesian product and the call grammar",
    "pool": "simulated process pool that chooses the order of completions and the failures",
    "loader": "sequences of generated good and failing files, against the list of declared simulations",
    "repro": "trajectories compared across processes, hash seeds, clocks, global generators, log levels, exporters and previous runs",
    "weights": "populations under many seeds and extreme random draws, against a bound of the binomial distribution",
    "topo": "sequences of loads of networks through files with read faults, dictionaries and generators, against the network that was written",
    "bundled": "bundled agents in changing networks, under real and extreme random draws, against reference counts and transition probabilities",
    "cli": "sequences of commands (with failing files, models, exporters and options) in one process, against the same simulations run from code",
    "isolation": "iterations and configurations run alone, together and reordered; user objects compared before and after",
}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in core.REGISTRY:
        m = core.REGISTRY[i]["module"]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": f"deterministic simulation with fault injection, seeded search: {NOTES[m]}",
            "level": "exploration",
            "level_note": "The property held in every seeded run explored (see the evidence for how many, which faults and which distinct histories); "
                          "it is not a proof for the runs that were not. Real soil code from /repo's working tree; the stubs and assumptions are listed in the evidence.",
        })
    else:
        na.append({"property": i, "reason": "No check has been built for it yet."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is installed from outside before soil is imported. Defects found and repaired are in KNOWN_FINDINGS.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
