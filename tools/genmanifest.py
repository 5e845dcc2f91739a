#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C19": "encoding and decoding are pure functions of one input: no schedule, clock, I/O, fault or second party for a simulation to vary",
    "C20": "URI parsing is a pure function of one string: no schedule, clock, I/O, fault or second party for a simulation to vary",
}
TODO = {}
CLAIMED = json.load(open(os.path.join(root, "tools/claimed.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CLAIMED:
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, " + CLAIMED[p][0],
            "level": "exploration",
            "level_note": CLAIMED[p][1],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the simulator interposes libc calls in its own executable and implements the repository's HttpClient/HttpServer traits", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One binary (harness/, hypsim) runs the real library under a simulated scheduler, disk, clock, randomness, network and gateway. './harness/target/release/hypsim replay FILE' replays a reported violation.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
