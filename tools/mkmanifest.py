"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = ("TLA+ specification model-checked with TLC; conformance by replaying every transition of the bounded "
      "model into the code and by validating recorded random executions against the specification")
TRUST = ("Trusts the harness's reading of the code's state and answers. Exhaustive only within the model's bounds; "
         "beyond them it is as good as the sampled executions.")
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook")]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' cargo build (tools/vlib.py: build)",
               "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": []}
for p in props:
    if p in NOTES:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                            "technique": MC, "level": "model_checking", "level_note": NOTES[p] + " " + TRUST})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
