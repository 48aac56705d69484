#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 props.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "bounded symbolic execution of the real Python source, assertions decided by z3"
PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mechanism, note, state=None, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     **(dict(state=[dict(name=a, meaning=b, where=c) for a, b, c in state]) if state else {}),
                     **(dict(observe_at=observe) if observe else {}),
                     hook_needed=None),
        _note=note))


def N(id, title, statement, over, quant, why, files, mechanism, reason):
    P(id, title, statement, over, quant, why, files, mechanism, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
na = {x["property"] for x in NA}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    if not os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")):
        na.add(p["id"])
        NA.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="./check %s quick" % p["id"],
        thorough_cmd="./check %s thorough" % p["id"],
        technique=TECH, level="model_checking",
        level_note="Every assertion is decided by z3 for all inputs within the stated bounds on every feasible path of the code as it is in /repo; nothing is claimed beyond the bounds. " + p["_note"] + " Trusts z3 and the symbolic models of CPython builtins in symhach (path models are replayed on the real code on each run)."))
man = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python3 -c 'import z3'",
           checks=checks, not_applicable=NA,
           notes="One command per property: ./check ID quick|thorough [--only=harness] [-v]. No hooks in /repo. DESIGN.md describes engine, bounds and findings; known_findings.json lists findings and fixes.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(NA), "not applicable")
