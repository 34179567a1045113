#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/vlib")
import props, registry
NA = []
with open(H + "/properties.jsonl", "w") as f:
    for p in props.P.values():
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"],
                        "hook_needed": None}}) + "\n")
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
checks = [{"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
           "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": registry.PROPS[i]["level"],
           "level_note": p["note"]} for i, p in props.P.items()]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: every check compiles the unmodified sources of /repo's working tree into /verif/.build."},
          open(H + "/MANIFEST.json", "w"), indent=1)
assert set(props.P) == set(registry.PROPS)
