#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/ (META of each module) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
TECH = "runtime monitoring of the real engine under generated workloads; "
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
mods = {f[:3].upper(): "checks." + f[:-3] for f in os.listdir(os.path.join(V, "checks")) if f[0] == "c" and f[1:3].isdigit()}
for p in props:
    i = p["id"]
    if i in mods:
        m = importlib.import_module(mods[i]).META
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + m.get("technique", "independent reference evaluator as oracle"),
                       "level": m.get("level", "exploration"),
                       "level_note": m.get("note", "Every execution explored is judged by an oracle written independently of the code; says nothing about executions not generated.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every monitor observes the public API, the engine's in-memory tables, files and processes from outside."}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks", len(na), "unclaimed")
