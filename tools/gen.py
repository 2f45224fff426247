#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/texts.py, lib/specs.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import specs  # noqa
from texts import T  # noqa
try:
    from texts import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
have = {p.pid: p for p in specs.PROPS}
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(T):
        t = T[k]
        assert len(t["title"]) <= 80, (k, len(t["title"]))
        a = {"files": t["files"], "mechanism": t["mechanism"]}
        if t["state"]:
            a["state"] = t["state"]
        if t["observe"]:
            a["observe_at"] = t["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({
            "id": k, "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["quant"]},
            "why_tests_cant": t["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: harnesses and stand-in headers live in "
              "/verif and compile /repo's current sources."}
for k in sorted(have):
    m["checks"].append({
        "property": k,
        "quick_cmd": "python3 run.py %s quick" % k,
        "thorough_cmd": "python3 run.py %s thorough" % k,
        "technique": "symbolic execution of the compiled LLVM IR of the real "
                     "sources, every path and assertion decided by z3, "
                     "counterexamples replayed natively",
        "level": "model_checking",
        "level_note": T[k]["note"] + " Bounds: " + have[k].bounds + ". Assumes: "
        + "; ".join(have[k].assumptions + ["clang 18, z3 and the "
                    "instrumentation under engine/ are trusted (models are "
                    "replayed natively)"]) + "."})
missing = set(T) - set(have) - {x["property"] for x in NOT_APPLICABLE}
assert not missing and set(have) <= set(T), (missing, set(have) - set(T))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
