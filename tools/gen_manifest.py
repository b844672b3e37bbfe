#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "seeded deterministic simulation: allocator refusing requests at arbitrary points; abort/panic/hang monitor",
 "C02": "seeded deterministic simulation: outages begin and end; error-without-cause and service-after-outage oracle",
 "C03": "seeded deterministic simulation: total outage after each granted reservation; request counter",
 "C04": "seeded deterministic simulation: refused requests at every depth; before/after identity comparison",
 "C05": "seeded deterministic simulation with fault injection: ownership ledger of every element",
 "C06": "seeded deterministic simulation with fault injection on a checking arena allocator",
 "C07": "seeded deterministic simulation: panics injected at the n-th callback of any kind, with and without refused memory",
 "C08": "seeded deterministic simulation: total outage and request counter around infallible operations",
 "C09": "seeded deterministic simulation with fault injection against a reference list",
 "C10": "seeded deterministic simulation with fault injection against a reference sorted map",
 "C11": "seeded deterministic simulation with fault injection against a reference sorted set",
 "C12": "seeded deterministic simulation with fault injection against a reference map, simulated hash seeds",
 "C13": "seeded deterministic simulation: adversarial iterator clients, abandonment and outages against a reference sequence",
 "C14": "seeded deterministic simulation: refused requests, failing and panicking element clones; deep equality and ownership oracle",
 "C15": "seeded deterministic simulation: adversarial reader (short, interrupted, failing, panicking) and refused memory",
 "C16": "seeded deterministic simulation: refused memory between writes; vector = concatenation of acknowledged writes",
 "C17": "seeded deterministic simulation: lying size hints, panicking iterators and refused memory; ownership ledger",
 "C18": "seeded deterministic simulation: outage begins with the first formatter callback; request counter",
 "C19": "seeded deterministic simulation with fault injection: ownership ledger, layout-checking arena",
 "C20": "seeded deterministic simulation with fault injection: heap block census against the entry count",
 "C24": "seeded deterministic simulation with fault injection: size and number of allocation requests per operation against the need of its result",
 "C25": "seeded deterministic simulation with fault injection: calls into each kind of user code per operation against the need of its result, over histories that shape the containers",
 "C21": "seeded deterministic simulation of threads: preemption at allocations and callbacks; same digest as alone",
}
NA = {
 "C22": "a statement about which trait implementations exist: settled by the compiler, with no input, schedule, fault or history for a simulator to vary",
 "C23": "a statement about auto traits and variance, i.e. about which programs compile: nothing of it happens at run time, so no execution can show or refute it",
}
NOTE = ("Seeded search over {what}; a clean batch is evidence, not proof. Trusts the simulator's reference models and its arena allocator (shared with no code of the crate), "
        "and that callbacks, the allocator, streams, hash seeds and thread switches are the only sources of nondeterminism (each check repeats a sample of its runs in fresh processes and compares event digests).")
WHAT = {"C21": "histories of several threads and the preemption points between them"}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                   "level_note": NOTE.format(what=WHAT.get(i, "operation histories, element layouts and fault plans"))})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks were needed in /repo: the allocator, element, closure, stream and hash-seed seams are all public. /repo carries fix: commits only (known_findings.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
