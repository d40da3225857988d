#!/usr/bin/env python3
"""Development helper: regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = {}
if os.path.exists(V + "/run/not_applicable.json"):
    na = json.load(open(V + "/run/not_applicable.json"))
m = dict(version=1, setup_cmd="python3 run/build.py", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="python3 run/check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run/check.py " + i,
            technique="symbolic execution of the compiled crate's LLVM IR with z3 deciding every branch and assertion",
            level="model_checking",
            level_note="Holds for every input within the bounds: " + p["bounds"] + ". Outside: " + p.get("outside", "-") +
                       ". Trusts: rustc/LLVM O1 IR, the executor in engine/ (cross-checked against native runs each time), z3; "
                       "hashing replaced by fixed functions, error texts not modelled."))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
