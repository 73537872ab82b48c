#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table in
tools/props.py (run by hand after editing it; the outputs are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

checks, manifest_checks = {}, []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        row = dict(id=p["id"], title=p["title"], statement=p["statement"],
                   quantifier=dict(over=p["over"], text=p["quant"]),
                   why_tests_cant=p["why"],
                   anchors=dict(files=p["files"],
                                mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                                observe_at=p.get("observe_at", []), hook_needed=None))
        f.write(json.dumps(row) + "\n")
        if not p.get("stages"):
            continue
        checks[p["id"]] = dict(stages=p["stages"], rule=p["rule"], assumptions=p.get("assumptions", []))
        manifest_checks.append(dict(
            property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"],
            thorough_cmd="./check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level="exploration", level_note=p["level_note"]))
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n["row"]) + "\n")
json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
manifest = dict(version=1, setup_cmd="python3 tools/setup.py", checks=manifest_checks,
                not_applicable=[dict(property=n["row"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
                notes=NOTES)
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(manifest_checks), "checks")
