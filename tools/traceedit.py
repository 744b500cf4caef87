#!/usr/bin/env python3
"""traceedit.py FILE INDEX CHECK: apply one edit of a tryedits battery to a scratch copy and trace a check on it (development aid)."""
import os
import runpy
import shutil
import subprocess
import sys

sys.argv, (f, i, c) = sys.argv[:1], sys.argv[1:4]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f"{V}/tools/tryedits.py").read().split("\nfor f in sys.argv")[0].replace("    out = []\n    for c in checks", "    return d\n    for c in checks")
ns = {"__file__": f"{V}/tools/tryedits.py"}
exec(compile(src, "tryedits", "exec"), ns)
d = ns["one"]((0, runpy.run_path(f)["EDITS"][int(i)]))
if isinstance(d, tuple):
    sys.exit(str(d))
r = subprocess.run([sys.executable, f"{V}/tools/trace.py", c], env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
print(*r.stdout.splitlines()[:25], r.stderr[-500:], sep="\n")
shutil.rmtree(d)
