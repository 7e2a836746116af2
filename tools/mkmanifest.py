#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
here = os.path.join(os.path.dirname(__file__), "..")
REPLAY = "TLA+ specification checked with TLC; recorded calls of the real code validated against it (trace validation)"
MODELS = {
 "C03": "MC_Rays (all combinations of ray fates and generation limits), every one replayed on the tracer",
 "C05": "Session (two tracers, settings, ledgers, aliasing); its random behaviours are scripts for the real tracers",
 "C08": "MC_Merge (merging as an algorithm against set semantics, exhaustive); every case is replayed on array_csg",
 "C09": "Scene (poses as words; bounding volumes belong to current poses); its behaviours are scripts",
 "C10": "Scene (orientation of normals under differences, inversion, reset); its behaviours are scripts",
 "C11": "Scene (poses as words, rejected calls); its behaviours are scripts",
 "C12": "Scene (containers, membership, Once); its behaviours are scripts",
 "C13": "Scene with pin contexts (Restored); its behaviours are scripts",
 "C21": "Lamps (heap of ray sets, kept drawings) and two faulty variants; its behaviours are scripts",
 "C25": "Session with shown drawings (Drawn: what is shown belongs to the last trace; a faulty variant); its behaviours are scripts",
 "C26": "Looks (questions, handed-out arrays, scratch space as a heap; invariant Answers) and three faulty variants; its behaviours are scripts",
 "C27": "Coords (coordinates and rays as a heap of arrays with views) and three faulty variants; its behaviours are scripts",
 "C24": "RaySets (heap of arrays, fields as rows) and two faulty variants; its behaviours are scripts",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "env VERIF_TIER=thorough bin/check " + i,
        "technique": REPLAY + ("; model " + MODELS[i].split(" (")[0] + " model-checked" if i in MODELS else ""),
        "level": "model_checking",
        "level_note": "Every recorded call of the sampled and scripted executions is judged by the TLA+ specification in exact "
                      "fixed-point arithmetic; executions are generated from VERIF_SEED, so inputs outside of the sample are not covered."
                      + (" Exhaustive within its constants: " + MODELS[i] + "." if i in MODELS else "")
                      + " Trusted: TLC, java/ (compared with the TLA+ definitions by bin/setup), the recorder lib/ex.py, tolerances named in the specification."})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: everything observed is public. VERIF_TIER=thorough enlarges models and samples about tenfold. "
                    "bin/check <ID> '<episode>' runs one episode again."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
