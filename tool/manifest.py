#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props

ps = sorted(props.P, key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        an = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        if p["observe"]:
            an["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=an)) + "\n")
checks, na = [], []
for p in ps:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    c = dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", technique=p["technique"], level=p["level"], level_note=p["note"])
    if p["thorough"]:
        c["thorough_cmd"] = f"python3 check.py {p['id']} --thorough"
    checks.append(c)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
