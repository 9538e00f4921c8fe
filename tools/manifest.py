#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
cfg = json.loads((V / "harness" / "checks.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
            technique="property-based testing: " + cfg[i].get("technique", "generated operation histories and schedules against an explicit oracle, with shrinking"),
            level="exploration",
            level_note=cfg[i].get("note", "Random exploration of generated cases (counts in the evidence); assumes g++ 13, Boost 1.83 and ASan/UBSan. No claim beyond the explored cases.")))
    else:
        na.append(dict(property=i, reason="no check built (yet): nothing is claimed for it"))
m = dict(version=1, setup_cmd="python3 tools/check.py --self-test", checks=checks, not_applicable=na,
         notes="Every check builds its harness and the library sources from /repo's working tree (see DESIGN.md).")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
