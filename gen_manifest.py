#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that check.py decides."""
import json, os, sys
sys.dont_write_bytecode = True
import check

NOTE = {
    "C01": "Seeded search over update histories with failing allocations; content compared element by element with a reference model after every operation.",
    "C02": "Seeded search over update histories with failing allocations, copies and combinations; values compared key by key with a reference model after every operation.",
    "C03": "Seeded search; segment order, disjointness, non-emptiness after every operation (also failed ones), exact segmentation per combining style after every completed one.",
    "C04": "Seeded search over states and fault positions; after each failed update every element is compared with before and with an undisturbed copy.",
    "C05": "Seeded search over states and fault positions; exact segments of all inputs compared before and after.",
    "C06": "Seeded search over states and sequences of fault positions; content after the repetition compared with an undisturbed copy.",
    "C07": "Seeded search with faults; ledgers of memory blocks (size, type, double return, use after return by guard pages) and of value objects.",
    "C08": "Seeded search over schedules at single memory accesses; results compared with running alone, and a vector-clock race detector on every instrumented access.",
    "C09": "Seeded search over schedules at single memory accesses with failing allocations in some threads; results compared with running alone, and a vector-clock race detector.",
    "C10": "Seeded search over contents, stream faults at every byte and exception masks; accepted bytes compared with an independently composed rendering.",
    "C11": "Seeded search over update histories with failing allocations, copies and combinations; key by key against a reference model.",
    "C12": "Seeded search; transfers run while every allocation and copy would fail, counters and contents checked, reuse of moved-from containers checked against the model.",
    "C13": "Seeded search; iterators held over up to whole histories, with address, liveness, content and reachability checked after every operation.",
    "C14": "Seeded search; every query answered by brute force over the observed segments after every operation, including after failed ones.",
    "C23": "Seeded search over sizes, contents, operands and failures; the simulator's clock counts executed basic blocks of every operation, compared with a limit of the documented shape.",
}
NA = {
    "C20": "A pure function of two interval values: no state, schedule, fault or history for a simulator to control; input generation alone would be a different technique.",
    "C21": "Algebraic identities over container values without history, faults or scheduling; the operators themselves are simulated under C01, C02, C05 and C11.",
    "C22": "Compile-time and pure-value adaptation of domain types (date_time, chrono, rational): nothing nondeterministic or fault-prone to simulate.",
}
props = [json.loads(l) for l in open(os.path.join(check.HERE, "properties.jsonl"))]
checks = [{
    "property": p["id"],
    "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
    "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
    "technique": "deterministic simulation with fault injection (seeded search over operation, fault%s plans)" % (" and schedule" if p["id"] in ("C08", "C09") else ""),
    "level": "exploration",
    "level_note": NOTE[p["id"]] + " Exploration: no violation in the runs made, which is not a proof. Assumes the properties of domain and codomain types listed in the evidence.",
} for p in props if p["id"] in check.PROPS]
na = [{"property": p["id"], "reason": NA.get(p["id"], "check still being built")} for p in props if p["id"] not in check.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library's own seams (allocator, codomain, predicates, streams) and compiler instrumentation are used."},
          open(os.path.join(check.HERE, "MANIFEST.json"), "w"), indent=1)
