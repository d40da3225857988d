#!/usr/bin/env python3
"""replay.py FILE : run a recorded counterexample against the real code."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
r = json.load(open(sys.argv[1]))
n = check.replay(build.build_all(), r["entry"], r["arg"], r["input"])
print(json.dumps(n))
sys.exit(0 if n["status"] == "ok" else 1)
