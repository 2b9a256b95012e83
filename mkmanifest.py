#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of claimed properties)."""
import json, os, sys
NOTE = ("Seeded search over operation histories, fault positions and schedules on the real library; a clean batch is "
        "evidence, not proof. Trusted: the simulator in sim/core, the reference model, rustc. User panics are not raised "
        "while already unwinding; allocation failure unwinds instead of aborting.")
CLAIMED = {
 "C01": "deterministic simulation: histories with user panics at every kind of callback, element ledger",
 "C02": "deterministic simulation: histories continued after user panics, audited against a reference model",
 "C03": "deterministic simulation: drains and by-value iterations cancelled, dropped or leaked at seeded points",
 "C04": "deterministic simulation: allocation requests refused at seeded points, histories continued and repeated",
 "C05": "deterministic simulation: operations run under an allocation blackout",
 "C06": "deterministic simulation: simulated heap with guards, quarantine and layout ledger under panics and refusals",
 "C11": "deterministic simulation: histories refined against a row-major reference model, with faults",
 "C14": "deterministic simulation: invalid requests injected into histories, chains of views and iterators, state compared before and after",
 "C15": "deterministic simulation: readings through seeded chains of views of arrays with seeded histories, with user panics, against positions and values",
}
CLAIMED.update({k: v for k, v in {
 "C07": "deterministic simulation: serde source with seeded errors, early ends, ragged data and lying length hints",
 "C08": "deterministic simulation: serde and fmt sinks failing at seeded calls, prefix oracle",
 "C09": "deterministic simulation: real threads under a seeded baton scheduler, ownership and sequential-equivalence oracle",
 "C10": "deterministic simulation: seeded interleavings of steps, folds, clones and interruptions over many iterators",
 "C12": "deterministic simulation: effect trace of seeded expression trees against a reference evaluation, with panics",
 "C13": "deterministic simulation: panics at seeded elements of in-place updates through seeded chains of views",
}.items() if os.path.exists(f"sim/src/bin/{ {'C07':'serdew','C08':'serdew','C09':'conc','C10':'iters','C12':'exprs','C13':'inplace'}[k]}.rs")})
NA = {
 "C32": "Decided by the type checker at compile time; there is no execution to simulate.",
 "C33": "Auto-trait and marker impls are compile-time facts; which programs are rejected cannot be observed by running accepted ones.",
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CLAIMED:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": CLAIMED[p], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (elements, closures, iterators, allocator, serde, fmt, threads) is public API or std."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
