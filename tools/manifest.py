#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, subprocess, sys
sys.dont_write_bytecode = True
V = "/verif"
sys.path.insert(0, V + "/checks")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(V + "/checks/%s.py" % i.lower()):
        na.append({"property": i, "reason": NA.get(i, "specification and harness not built yet")})
        continue
    m = importlib.import_module(i.lower())
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(m, "TECHNIQUE", "TLA+ specification model-checked with TLC; TLC-generated scenarios and random histories replayed on the real code, recorded, and validated against the specification by TLC"),
        "level": "model_checking",
        "level_note": getattr(m, "LEVEL_NOTE", "Exhaustive on the specification within the stated bounds; the code is bound by conformance of recorded behaviour, not proved."),
    })
hooks = {"guard": "cfg(ragu_verif)", "enable": "RUSTFLAGS='--cfg ragu_verif' (checks/lib.py build())",
         "source_commits": subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()}
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its harness layer from /repo's working tree, runs TLC on the specification, replays, records and validates. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
