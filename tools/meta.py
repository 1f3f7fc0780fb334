#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the
claims in sa/props.py.  Run by hand after editing either."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import P, NA
from sa.props import PROPS

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        d = P[k]
        assert len(d["title"]) <= 80, (k, len(d["title"]))
        o = dict(id=k, title=d["title"], statement=d["statement"],
                 quantifier=dict(over=d["over"], text=d["quant"]),
                 why_tests_cant=d["why"],
                 anchors=dict(files=d["files"], mechanism=[dict(name=n, where=w) for n, w in d["mech"]]))
        f.write(json.dumps(o) + "\n")
checks = []
na = []
for k in sorted(P):
    if k in PROPS:
        c = PROPS[k]
        checks.append(dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="python3 check.py %s --tier thorough" % k,
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=k, reason=NA.get(k, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
