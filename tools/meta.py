#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=("stdout of the evaluated program", "error kind and message"), state=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                   anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                observe_at=list(observe), hook_needed=None)), note, technique))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
checks = []
for p, note, tech in P:
    i = p["id"]
    if i in [x[0] for x in NA]:
        continue
    checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./check.py --build std stress", checks=checks,
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="No hooks in /repo: the harness crate (runner/) drives the public Globals/VM API through a path dependency; "
               "the existing cargo feature gc-stress is used for one variant. Fix commits: see known_findings.json (status fixed).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
