#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md, seeded/*/meta.json and known_findings.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f).read().rstrip() for f in sorted(glob.glob(R + "/tools/design/*.md"))]
t = ["## Planted bugs and the checks that catch them", "", "Each is kept in seeded/<id>/ with its demonstration; the check of the property it is written for catches it in the quick tier.", "", "| id | caught by | what breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    t.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), c(d.get("caught_by", d["property"])), c(d["what_it_breaks"]), c(d["needs"])))
out.append("\n".join(t))
k = json.load(open(R + "/known_findings.json"))
t = ["## Known findings (not repaired)", "", "Genuine defects whose repair is not small; the checks print them as KNOWN-FINDING and otherwise avoid exactly the construct named.", ""]
for e in k:
    if e["status"] != "fixed":
        t.append("- %s/%s: %s" % (e["property"], e["id"], e["what"]))
t += ["", "## Repaired defects", "", "%d defects found by the checks were repaired by `fix:` commits in /repo; known_findings.json has the commit and a minimal program for each, which is rerun by the check as a regression." % sum(e["status"] == "fixed" for e in k)]
n = {}
for e in k:
    if e["status"] == "fixed":
        n[e["property"]] = n.get(e["property"], 0) + 1
t.append("Per property: " + ", ".join("%s %d" % x for x in sorted(n.items())) + ".")
out.append("\n".join(t))
open(R + "/DESIGN.md", "w").write("\n\n".join(out) + "\n")
