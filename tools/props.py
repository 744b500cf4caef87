#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
D = "harmonic_inference/data/"
U = "harmonic_inference/utils/"
M = "harmonic_inference/models/"
NA = []


def prop(pid, title, statement, text, why, files, mech, technique=None, note=None, over=("inputs",), observe=None, na=None):
    assert len(title) <= 80, pid
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append(dict(rec=dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=a), technique=technique, note=note))
    if na:
        NA.append(dict(property=pid, reason=na))


AI = "abstract interpretation of the source (constant/affine/interval domain, guarded closed forms)"
TR = " Trusts: the analyser's model of Python and of the numpy/pandas calls used; a construct it cannot model is reported as undecided in the evidence, not as a violation."

exec(open(os.path.join(V, "tools", "proptable.py")).read())

with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")
na_ids = {n["property"] for n in NA}
man = dict(
    version=1,
    setup_cmd="python3 -c 'import ast, json'",
    checks=[
        dict(
            property=p["rec"]["id"],
            quick_cmd=f"python3 run.py {p['rec']['id']} quick",
            thorough_cmd=f"python3 run.py {p['rec']['id']} thorough",
            technique="static analysis: " + p["technique"],
            level="other",
            level_note=p["note"],
        )
        for p in P
        if p["rec"]["id"] not in na_ids
    ],
    not_applicable=NA,
    notes="All checks read /repo's syntax trees with the Python standard library; no repository code is imported or executed and nothing is built.",
)
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks,", len(NA), "not applicable")
