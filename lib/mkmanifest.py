#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sorted(table.PROPS, key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        for n, w in p["mech"]:
            assert os.path.exists(os.path.join("/repo", w)), w
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = []
for p in props:
    assert os.path.exists("%s/checks/%s.py" % (V, p["id"].lower())), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": checks, "not_applicable": getattr(table, "NOT_APPLICABLE", []),
     "notes": "Every check rebuilds the whole library from /repo's working tree with stand-ins for the absent submodules (shims/); no hooks in /repo are needed."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties")
