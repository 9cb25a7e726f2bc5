#!/usr/bin/env python3
"""writes MANIFEST.json from vf/checks REGISTRY and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from vf.checks import REGISTRY, TECH
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Static: decided from /repo's source on every run by abstract interpretation of the public entry points over all option sets; "
        "nothing of the package is executed. Trusts the library semantics tables in vf/ and the loop summaries; constructs the analysis "
        "cannot resolve are counted as undecided in the evidence and are not alarms.")
NA = {
 "C27": "Whether the reported depths equal the definition depends on the node numbering and depths of trees that exist only at run time "
        "(slices of an array of depths by preorder ids); no static argument in reach relates them to the tree's shape.",
 "C28": "A numeric bound over arbitrary runtime predictions: it needs algebra over unbounded sums of data values that no static domain here "
        "bounds; its structural parts (which effects are compared, shift and scale laws) are decided under C17 and C18.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 9)\"", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
