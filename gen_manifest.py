#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check yet (under construction)"})
        continue
    sans = sorted({r["san"] for r in c["runs"]})
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "runtime monitoring: generated workloads on the real library under %s, judged online by a reference model" % "/".join(
            {"asan": "ASan+UBSan", "tsan": "ThreadSanitizer", "none": "a plain build"}[s] for s in sans)),
        "level": "exploration",
        "level_note": c.get("note", "Held on the executions generated from the seed: the oracle observed every operation of every history; paths the workload does not drive are not covered. "
                            "Trusts the model in the harness, clang's sanitizers and the C++ runtime."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 gen_manifest.py && cmake --version && clang++ --version && ninja --version",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks need no hooks in /repo: they observe the public function table, the C++ API, destructors, the allocator and the sanitizers. "
             "check.py builds harness/cNN*.cpp together with /repo's CMake project from its current working tree.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
