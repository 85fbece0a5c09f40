#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
from checks import CHECKS
NOT = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        a = dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
        assert len(p["title"]) <= 80, p["title"]
na = {x["property"] for x in NOT}
checks = []
for p in props.PROPS:
    if p["id"] in na:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or props.CT, level=p["level"],
                       level_note=p["note"] or props.CN))
    assert c.get("level", "exploration") == p["level"], p["id"]
for k in CHECKS:
    assert any(p["id"] == k for p in props.PROPS), k
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none: no hooks are needed in /repo; the checks observe at the MySQL protocol, the Kubernetes API, the object store and the programs the code runs", enable="go test -c of the harness module in /verif/harness, which replaces github.com/cybozu-go/moco by /repo", source_commits=[]),
         checks=checks, not_applicable=NOT, notes="see DESIGN.md; ./check ID [quick|thorough]; VERIF_SEED selects the scenarios")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
