#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
from registry import CHECKS, NOT_APPLICABLE
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
PROPS = [p for p in PROPS if p["id"] in CHECKS or p["id"] in NOT_APPLICABLE or "--all" in sys.argv]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: the checks drive the public API of /repo built with sanitizers", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=CHECKS[p["id"]].get("technique", "property-based testing against a reference model (generated inputs, shrinking, sanitizers)"), level="exploration",
                      level_note=CHECKS[p["id"]].get("note", "Held on every generated case of the run; nothing is claimed beyond the generated domain described in the evidence. Trusts the reference model in the harness, OpenCV and the sanitizer runtime."))
                 for p in PROPS if p["id"] in CHECKS],
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="One harness per property in harness/, run by tools/check.py, which rebuilds /repo's libraries (ASan) in build/ first. Known findings and fixes: known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
