#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "P29": "Arithmetic of pure value types: no schedule, time, fault, storage or second party bears on it, so a simulator "
           "adds nothing over plain testing of the functions. Where a wrong conversion changes what instructions do, the "
           "checks of P01, P02, P05, P10 and P21 see it.",
}
NOTE = {
    "default": "Seeded search over whole-deployment schedules, clock behaviour and injected faults; every step is judged against an "
               "executable reference model and model-free invariants. Exploration: what no run reached was not judged. Trusts the "
               "simulated ledger runtime and the native build standing in for SBF.",
    "P22": "Liveness as progress within a fixed number of transactions once faults and hostile traffic stop, at the end of every run.",
    "P06": "Checked after every transaction and clock step, in runs whose clock never went backwards (a rewound clock can revive an "
           "expired order).",
    "P28": "Each instruction that succeeds (and a sample of those refused) is executed again on a fork of the ledger in the form the shipped builders, "
           "packet constructors and the IDL give it, and the outcomes are compared.",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded schedules on a simulated ledger, judged by a reference model and invariants",
        "level": "exploration",
        "level_note": NOTE["default"] + (" " + NOTE[i] if i in NOTE else ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo were needed: the program already meets the outside world only through the runtime's system-call "
             "seam (solana_program::program_stubs) and its entry function. Replays: ./replay.sh <file>.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
