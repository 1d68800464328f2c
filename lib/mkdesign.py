"""Rewrites DESIGN.md: lib/design_head.md, one section per property (from properties.jsonl and checks/), lib/design_tail.md,
the planted bugs (seeded/*/meta.json and the catch table lib/caught.json)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks")); sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
out = [open(os.path.join(V, "lib/design_head.md")).read().rstrip(), ""]
known = json.load(open(os.path.join(V, "known_findings.json")))
known = known if isinstance(known, list) else known["findings"]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")): continue
    m = importlib.import_module(i.lower())
    out += ["### %s %s" % (i, p["title"]), "", m.TECHNIQUE + ".", "", "*Workload and judgement.* " + m.RULE.rstrip(".") + ".", "", "*Bounds.* " + m.NOTE.rstrip(".") + "."]
    a = getattr(m, "ASSUMPTIONS", [])
    if a: out += ["", "*Assumptions.* " + "; ".join(a) + "."]
    f = [k for k in known if k["property"] == i]
    if f: out += ["", "*Defects found.* " + " ".join(("%s (fixed in %s): %s." % (k["id"], k["commit"], k["what"])) if k["status"] == "fixed" else ("**%s (open)**: %s." % (k["id"], k["what"])) for k in f)]
    out.append("")
out += [open(os.path.join(V, "lib/design_tail.md")).read().rstrip(), ""]
S = os.path.join(V, "seeded")
c = json.load(open(os.path.join(V, "lib/caught.json")))
if os.path.isdir(S):
    out += ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    rows = []
    for d in os.listdir(S):
        f = os.path.join(S, d, "meta.json")
        if os.path.exists(f):
            m = json.load(open(f)); rows.append((m["property"], d, m["needs"]))
    out += ["| %s | %s | %s | %s |" % (d, p, n.replace("|", "\\|"), c.get(d, "not yet tried")) for p, d, n in sorted(rows)]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
