#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has harnesses (harness/src/cNN.rs)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C28": "Kani/CBMC decides sequential executions only: threads are not encoded. (The crate has no interior "
           "mutability and no unsafe code, thus sharing is settled by the type system, not by this technique.)",
    "C29": "Stack consumption is not part of the encoded semantics and the nesting depth has no bound to unwind to: "
           "a solver answer would only cover shallow nesting. The property is in fact violated by the code (see the "
           "known finding in DESIGN.md and known_findings.jsonl).",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
bounds = json.load(open(os.path.join(V, "bounds.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "src", i.lower() + ".rs")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the compiled crate (Kani/CBMC), decided by a SAT solver",
            "level": "other",
            "level_note": "Solver verdict over all values within these bounds: " + " ".join(bounds.get(i, [])) +
                          " Unwinding assertions and reachability witnesses are part of each run; counterexamples are "
                          "replayed natively. Trusts Kani, CBMC, cadical and the HashMap stand-in.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(kani)",
        "enable": "cargo kani compiles the crate with --cfg kani, which swaps std's HashMap for src/verif_map.rs in "
                  "the standard tag factory and in the dictionary tags",
        "source_commits": ["b2775e2", "61ae246", "1c9c933", "4e586d6"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Defects that were found and repaired are listed in known_findings.jsonl.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
