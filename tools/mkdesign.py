#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl, the property table, evidence of a quick run, known findings, planted bugs and tools/mutation.txt."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(f"{V}/MANIFEST.json"))
props = {}
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    props[p["id"]] = p
checks = {c["property"]: c for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
out = []
for pid, p in props.items():
    out.append(f"\n### {pid} {p['title']}\n")
    if pid in na:
        out.append(f"Not applicable: {na[pid]}\n")
        continue
    c = checks[pid]
    out.append(f"Method: {c['technique'][len('static analysis: '):]}.\n")
    ev = [f for d in (os.environ.get("EVID", f"{V}/evidence"), f"{V}/evidence", f"/tmp/ev_{pid[1:]}") for f in glob.glob(f"{d}/{pid}.json")]
    if ev:
        e = json.load(open(ev[0]))["coverage"]
        out.append("Rules (specification = oracle, written independently in `checks/%s.py`):\n" % pid.lower())
        out += [f"* *{k}*: {v}" for k, v in e["rules"].items()]
        out.append(f"\nQuick run: {e['obligations']} obligations, about {e['elementary_comparisons']} elementary comparisons, {len(e['functions_analysed'])} functions analysed.\n")
    out.append(f"Bounds: {c['level_note']}\n")
    out.append(f"Beyond tests: {p['why_tests_cant']}\n")
fx = []
kf = json.load(open(f"{V}/known_findings.json"))
fx += ["Recorded, not repaired:", ""] + [f"* KNOWN-FINDING property={k['property']}: {k['what']}" for k in kf["findings"]] + ["", "Repaired:", ""] + ["* " + x for x in kf["fixed"]]
sd = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m))
    sd.append(f"| {m.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught', d['property'])} |")
s = open(f"{V}/tools/design.tmpl").read()
s = s.replace("PROPSECTION", "\n".join(out)).replace("FIXSECTION", "\n".join(fx) + "\n").replace("SEEDSECTION", "\n".join(sd) + "\n").replace("MUTSECTION", open(f"{V}/tools/mutation.txt").read())
open(f"{V}/DESIGN.md", "w").write(s)
