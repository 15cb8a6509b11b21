#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded model checking of the compiled Rust code (Kani/CBMC, SAT) with native replay of counterexamples",
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds: %s. Outside: %s. Assumes: %s." % (c["bounds"], c["outside"], "; ".join(c["assumptions"])),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses the public API; overlays are copies made from /repo/src on every run", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in PROPS],
    "notes": "See DESIGN.md. The thorough tier has no 900 s cap.",
}, open("MANIFEST.json", "w"), indent=1)
