#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks_config.py and tools/gen_properties.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "bin"), os.path.join(V, "tools")]
from checks_config import CHECKS
import gen_properties as g
NA = {}
m = dict(version=1, setup_cmd="python3 bin/check --selftest", checks=[], not_applicable=[])
for p in g.P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 bin/check %s --tier quick" % i, thorough_cmd="python3 bin/check %s --tier thorough" % i,
                                technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
m["notes"] = "bin/check builds the real library sources of /repo's working tree with an exploration harness and enumerates the stated space; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
