#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seams are the C library, the threading primitives and the compiler's thread-access "
             "instrumentation (see DESIGN.md). Every check builds from /repo's working tree into /verif/build.",
}
for i in ids:
    if i in CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
            "level": "exploration",
            "level_note": "Sampled executions of the real code under a simulated scheduler, clock, network and allocator. Oracle: "
                          + CHECKS[i]["oracle"] + ". Assumes the simulated kernel and sequentially consistent interleavings (plus a "
                          "happens-before race detector); every violation replays exactly from its file.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
