#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present (constants TECHNIQUE, NOTE, LEVEL of each) and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(1, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import importlib.util
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    spec = importlib.util.spec_from_file_location("chk", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "verif", "enable": "no hook was needed: the checks observe the unmodified program through its configuration, files, HTTP answers and process status", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "The TLA+ specification is in spec/; DESIGN.md says what each check decides with it. Checks build rodb from /repo's working tree into a scratch directory."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
