"""Rewrites MANIFEST.json from properties.jsonl and the modules in checks/."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True

NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module(p.lower())
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": m.TECHNIQUE,
            "level": getattr(m, "LEVEL", "exploration"),
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
man = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; sys.exit(0 if sys.version_info >= (3, 8) else 1)'",
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check rebuilds its harnesses from /repo's working tree with sanitizers (objects cached by content under build/). "
             "No hooks were added to /repo: crash points are injected by interposing write/fsync in the harness process, "
             "network faults by the stand-in qclient library in shim/.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
