#!/usr/bin/env python3
"""tryedits.py FILE...: run checks on hand-written edits (development aid). FILE defines EDITS = [(checks, file, old, new), ...]; with KEEP=1 semantics: a file whose name starts with 'keep' lists behaviour-preserving edits, on which the checks have to stay quiet."""
import ast
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    k, (checks, rel, old, new) = job
    d = f"/tmp/try/w{os.getpid()}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"cd {os.environ.get('VERIF_REPO', '/repo')} && git ls-files -z '*.py' | xargs -0 cp --parents -t {d}", shell=True, check=True)
    p = f"{d}/{rel}" if os.path.exists(f"{d}/{rel}") else f"{d}/harmonic_inference/{rel}"
    s = open(p).read()
    if any(s.count(o) != 1 for o in ([old] if isinstance(old, str) else old)):
        # edits may be written against the source without comments and docstrings as well
        t = ast.parse(s)
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
        s = ast.unparse(t)
    olds, news = ([old], [new]) if isinstance(old, str) else (old, new)
    for o, n in zip(olds, news):
        if s.count(o) != 1:
            shutil.rmtree(d)
            return k, f"EDIT MATCHES {s.count(o)}", o[:70]
        s = s.replace(o, n)
    try:
        compile(s, p, "exec")
    except SyntaxError as e:
        return k, "SYNTAX", str(e)
    open(p, "w").write(s)
    out = []
    for c in checks.split(","):
        try:
            r = subprocess.run([sys.executable, f"{V}/run.py", c], capture_output=True, text=True, timeout=900, env={**os.environ, "VERIF_REPO": d, "VERIF_EVID": d})
        except subprocess.TimeoutExpired:
            out.append(f"{c} TIMEOUT")
            continue
        und = [x for x in r.stdout.splitlines() if x.startswith("note: undecided")]
        v = [x for x in r.stdout.splitlines() if "[" in x and not x.startswith(("note", "KNOWN"))]
        out.append(f"{c} {'caught: ' + v[0].strip()[:110] if r.returncode == 1 and v else 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'}" + (f" ({len(und)} undecided: {und[0][16:110]})" if und and r.returncode != 1 else ""))
    shutil.rmtree(d)
    return k, "; ".join(out), ""


for f in sys.argv[1:]:
    edits = runpy.run_path(f)["EDITS"]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for (k, res, extra), e in zip(ex.map(one, enumerate(edits)), edits):
            n = e[3] if isinstance(e[3], str) else e[3][0]
            print(f"{k:3} {res} {extra} || {' '.join(n.split())[:70]}", flush=True)
