#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
from spec import PROPS
from registry import REGISTRY
try:
    from spec import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert p["id"] in REGISTRY, p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"],
        "level_note": p["note"] + " Quick: " + p["bound"]["quick"] + ". Thorough: " + p["bound"]["thorough"] + ".",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "OPENEMSH_VERIF", "enable": "no hook is needed: no code of /repo depends on this define", "source_commits": []},
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": "Every check is in-process exhaustive exploration of the real code; see DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
missing = set(REGISTRY) - {p["id"] for p in PROPS}
if missing:
    print("registered, not specified:", sorted(missing))
print(len(PROPS), "properties,", len(checks), "checks")
