#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/tools/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
checks = []
for p in props:
    c = cfg.get(p["id"])
    if not c:
        assert p["id"] in na, p["id"]
        continue
    assert p["id"] not in na, p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/run.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 tools/run.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c.get("technique", "deterministic simulation with fault injection (seeded search, reference-model oracle)"),
                       level="exploration", level_note=c.get("note", "Seeded sampling of plans; a clean run is evidence over the explored plans, not proof.")))
m = dict(version=1, setup_cmd="python3 tools/build.py all",
         hooks=dict(guard="none", enable="No hooks in /repo: all seams are link-time interposition and existing virtual interfaces.", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes="See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
