#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the modules in checks/."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    pid = p["id"]
    if "na" in p:
        na.append({"property": pid, "reason": p["na"]})
    elif os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s quick" % pid,
            "thorough_cmd": "python3 check.py %s thorough" % pid,
            "technique": getattr(m, "TECHNIQUE", p.get("technique", "static analysis")),
            "level": getattr(m, "LEVEL", "other"),
            "level_note": getattr(m, "NOTE", m.RULE)[:1500],
        })
    else:
        na.append({"property": pid, "reason": "No check is claimed yet."})
man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
