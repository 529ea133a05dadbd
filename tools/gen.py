#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and checks/table.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
import props, table
ps = sorted(props.PROPS, key=lambda p: p["id"])
assert len({p["id"] for p in ps}) == len(ps)
with open(V + "/properties.jsonl", "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
ck, na = [], []
for p in ps:
    if p["na"] or p["id"] not in table.CHECKS: na.append(dict(property=p["id"], reason=p["na"] or "check not built yet")); continue
    ck.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"], technique=p["tech"], level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=ck,
         hooks=dict(guard="NWGRAPH_MC_HOOKS", enable="no hooks are needed: the harnesses force-include mc/rt.hpp (stand-in task back end) and compile /repo/include unchanged", source_commits=[]), not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(ck), "checks", len(na), "not applicable")
