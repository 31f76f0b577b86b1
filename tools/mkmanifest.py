#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation of caller threads, per-location linearizability of the recorded history",
    "C02": "deterministic simulation of concurrent creation/destruction histories against a reference model",
    "C03": "deterministic simulation of concurrent contexts, refinement against per-context sequential models",
    "C04": "deterministic simulation with a simulated host mutex and allocator faults, discipline invariants and deadlock detection",
    "C05": "deterministic simulation with injected block allocation failures against a reference model",
    "C06": "deterministic simulation with injected allocation failures, reference model and leak accounting",
    "C07": "deterministic simulation of call histories with rejected programs, reference model and leak accounting",
    "C08": "deterministic simulation of call histories on a checking allocator (bounds, lifetime, leaks)",
    "C09": "deterministic simulation of call histories against a reference model of variables",
    "C10": "deterministic simulation of concurrent histories against a reference model of registers",
    "C11": "deterministic simulation of memory histories against a reference model of the buffers",
    "C12": "deterministic simulation with step budgets, loop conditions changed by other simulated threads",
    "C13": "deterministic simulation of concurrent rand calls, exactly-once check against one reference sequence",
    "C14": "deterministic simulation of repeated executions against a reference model",
    "C15": "deterministic simulation of histories mixing both APIs against one reference model",
    "C16": "deterministic simulation with intercepted process-level calls, allocation faults and double execution",
    "C22": "deterministic simulation of concurrent writers and readers, each result checked against a reference model over the values its operands could have",
}
LEVEL = ("Seeded search, not exhaustive: the property held on all simulated runs of this seed (counts in the evidence). Real library code; "
         "scheduler, host mutex and allocator simulated; sequentially consistent interleavings at single memory accesses. Trusts the reference model and libm.")
NA = {
    "C17": "A pure function of operand values: no schedule, fault or history is involved. (The simulation compares the operators and functions its workloads use, as a by-product.)",
    "C18": "A pure function of the program text: nothing to schedule or to inject.",
    "C19": "A pure function of the program text and start state: the optimisation runs at compile time, without schedule or fault.",
    "C20": "A pure function of the program text: nothing to schedule or to inject.",
    "C21": "A pure function of the program text: nothing to schedule or to inject.",
}
m = {"version": 1, "setup_cmd": "python3 tools/simbuild.py",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": t,
                 "level": "exploration", "level_note": LEVEL} for p, t in TECH.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: instrumentation is added by the compiler and symbols of the library's objects are redirected in the simulator's own build. "
              "Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
