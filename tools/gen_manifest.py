#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness implements."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
CODEC = "property-based testing (proptest): generated inputs against an independent reference codec and message model"
ENGINE = "stateful property-based testing (proptest): generated histories of operations, peer frames and faults against a model peer, with oracles over wire and results"
TECH = {
 "C01": CODEC, "C02": CODEC, "C03": CODEC,
 "C04": "stateful property-based testing of message edit histories against a section model",
 "C05": "mutation-based fuzzing of all decoders with a strict reference decoder, memory, stack and cpu bounds as oracle",
 "C06": "metamorphic property-based testing: the same stream under different cuts, against an independent framer",
 "C07": "property-based testing and byte fuzzing of protocol headers, on the codec and on real handshakes",
 "E17": "property-based testing of timing configurations and traffic gaps on real timers, against a timing model with tolerances",
 "E25": "property-based testing of handshake pacing against a timing model with tolerances, on real timers",
 "E24": "property-based testing of configurations and announcements: what is set against what is on the wire, and the reverse, field by field",
 "E27": "stateful property-based testing: several connections with generated services and faults against a model of their lifecycle",
 "E28": "metamorphic property-based testing: repeated rounds, live heap as the oracle",
 "E19": "differential property-based testing: two endpoints of the library joined by a fragmenting, delaying, cutting proxy",
 "E15": "fuzzing of a live endpoint with generated and mutated frame sequences; oracle: clean close, no panic, no hang, no runaway",
}
import sys
sys.path.insert(0, os.path.join(root, "tools"))
from methods import M
NOTE = {k: f"generated search, not a proof. Generated: {g}. Oracle: {o}." + (f" Limits: {b}." if b else "") + " Counts, distinct non-trivial cases and samples are in the evidence file; failures shrink to a replay file." for k, (g, o, b) in M.items()}
done = set(subprocess.run([f"{root}/target/debug/amqpv", "list"], capture_output=True, text=True).stdout.split())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i} quick",
            "thorough_cmd": f"./run.sh check {i} thorough",
            "technique": TECH.get(i, ENGINE),
            "level": "exploration",
            "level_note": NOTE.get(i, "generated cases only; counts, distinct non-trivial cases and samples are in the evidence file; failures shrink to a replay file"),
        })
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "none", "enable": "no hooks: checks use the public API of the crates", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
