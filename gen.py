#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json
import os
from registry import PROPS, NOT_APPLICABLE, EXTRA_PROPERTIES

HERE = os.path.dirname(os.path.abspath(__file__))


def line(id, p):
    return {
        "id": id, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None},
    }


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, p in list(PROPS.items()) + list(EXTRA_PROPERTIES.items()):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(line(id, p)) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are compiled into the library: the harnesses use its public headers as they are"},
    "checks": [{
        "property": id,
        "quick_cmd": "python3 run.py %s --tier quick" % id,
        "thorough_cmd": "python3 run.py %s --tier thorough" % id,
        "technique": p.get("technique", "property-based testing: stateful generated histories against a reference model, with shrinking"),
        "level": "exploration",
        "level_note": p.get("level_note", "random search against an explicit oracle under AddressSanitizer and UBSan; absence of a violation is not proved"),
    } for id, p in PROPS.items()],
    "not_applicable": [{"property": id, "reason": r} for id, r in NOT_APPLICABLE],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
