#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "simulated: every interleaving, delay and fault of a run is decided by its seed; sequentially consistent execution with preemption at every statement of the code under test and every synchronisation; sampled, not enumerated"
BRK = CORE + "; the broker is an in-memory implementation of BrokerController"
LEVEL = {
    "C01": CORE, "C02": BRK, "C03": BRK, "C04": BRK, "C05": BRK, "C06": BRK, "C07": BRK, "C08": BRK, "C09": BRK, "C16": BRK, "C17": BRK,
    "C10": CORE + "; real nats.go client, the NATS server is a stub behind a simulated network",
    "C11": CORE + "; real nats.go client, the JetStream server is a stub behind a simulated network",
    "C12": CORE + "; real nats.go client, stub server, plus the race detector over the same simulated runs",
    "C13": CORE + "; real kafka-go client, the Kafka cluster is a stub behind a simulated network",
    "C14": CORE + "; real kafka-go client, the Kafka cluster is a stub behind a simulated network",
    "C15": CORE + "; observed on the wire of stub NATS and Kafka servers",
    "C18": "simulated: the real generator under seeded hash seeds, map iteration, select and scheduling, over histories of generations in one process compared with a fresh process; sampled",
    "C19": "simulated: the real generator and command line with every file-system call of the generation failing in turn (errors, short writes, full disk), at seeded positions",
}
TECH = {
    "default": "deterministic simulation with seeded schedules and fault injection",
    "C18": "deterministic simulation: seeded hash order and in-process histories against a fresh-process reference",
    "C19": "deterministic simulation with injected file-system faults",
}
CLAIMED = os.environ.get("CLAIMED", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19").split()
NA = {
    "C20": "a pure function of one document: no schedule, clock, I/O fault, interleaving or multi-party behaviour for it to depend on; simulation would only be input generation in disguise",
    "C21": "a pure function of one schema and one value: no schedule, clock, I/O fault, interleaving or multi-party behaviour for it to depend on",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "No hook is committed in /repo: the seams are put in by a build overlay (instrumented copies of the packages under test, patched copies of the Go standard library and runtime), made afresh from /repo's working tree by every check. Replays: ./check.sh --replay FILE.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]), "level": "exploration", "level_note": LEVEL[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
