#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the fixed text of design.txt, then per property how it is decided (title and statement from
properties.jsonl, cases and oracle from the check itself), the planted bugs and the findings."""
import importlib.util, json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [V + "/checks", V + "/lib"]
sys.dont_write_bytecode = True
WHY = json.load(open(V + "/tools/design_why.json"))
out = [open(V + "/tools/design.txt").read().rstrip(), "", "## The properties, one by one", ""]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    f = "%s/checks/%s.py" % (V, p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    if not os.path.exists(f):
        out += ["Not decided yet: the check is not built.", ""]
        continue
    sp = importlib.util.spec_from_file_location("m" + p["id"], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    c = m.CHECK
    out += ["*Generated and compared:* " + c.rule, ""]
    out += ["*Cases (quick / thorough):* " + ", ".join("%s %d / %d" % (t.name, t.n["quick"], t.n["thorough"]) for t in c.tests) + ".", ""]
    out += ["*Why beyond the tests:* " + WHY.get(p["id"], p["why_tests_cant"]), ""]
    if c.assumptions:
        out += ["*Assumed or left out:* " + "; ".join(a.rstrip(".") for a in c.assumptions) + ".", ""]
out += ["## Findings", "", "Genuine defects, each shown by a failing case on the code as it was. All but those marked *known* are repaired, "
        "each in its own `fix:` commit:", ""]
for x in json.load(open(V + "/known_findings.json"))["findings"]:
    if x["status"] == "fixed":
        out.append("- " + x["what"])
    else:
        out.append("- **known**, property %s, finding `%s`: %s" % (x["property"], x["finding"], x["what"]))
out += ["", "## Planted bugs", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], caught.get(s, m["property"])))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
