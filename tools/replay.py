#!/usr/bin/env python3
"""replay.py FILE: runs the operations of a replay file against /repo and shows the last answer."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, importlib

r = json.load(open(sys.argv[1]))
sys.argv = ["check.py", r["property"]]
os.environ["VERIF_NO_CLEAN"] = "1"
c = vlib.Check(r["property"])
if r["suite"].startswith("chain"):
    import c_chain
    b, d, env = c_chain.setup(c)
else:
    b, d = vlib.build(r["suite"]), None
obs = c.run(b, r["suite"], r["ops"], cwd=d)
print("expected:", json.dumps(r["expected"]))
print("observed:", json.dumps(obs[-1]))
want = r["expected"] if isinstance(r["expected"], list) else [r["expected"]]
sys.exit(0 if obs[-1] in want else 1)
