#!/usr/bin/env python3
"""mkseed.py SPEC.json...: build /verif/seeded/<id>/ from a spec, confirming in a scratch copy of
/repo that the patch applies, the stable tests still pass, and the demo passes before / fails after.
Spec: {"id","property","edits":[[file, old, new],...],"demo": python source,"needs","breaks"}"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    import runpy

    for path in sys.argv[1:]:
        for spec in runpy.run_path(path)["SEEDS"]:
            one(spec)


def one(spec):
    sid = spec["id"]
    if os.path.exists(f"{V}/seeded/{sid}/patch.diff") and not os.environ.get("FORCE"):
        return
    w = f"/tmp/seed_{sid}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/demo.py", "w") as f:
        f.write(spec["demo"].lstrip())
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    if spec.get("stubs"):
        shutil.copy(f"{V}/tools/stubs.py", f"{d}/stubs.py")
    r0 = sh(f"bash {d}/demo.sh", cwd=w)
    if r0.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN", r0.stdout[-800:], r0.stderr[-1500:])
        shutil.rmtree(d)
        shutil.rmtree(w)
        return
    for file, old, new in spec["edits"]:
        p = f"{w}/harmonic_inference/{file}" if not os.path.exists(f"{w}/{file}") else f"{w}/{file}"
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, "EDIT MATCHES", s.count(old), "times:", old[:80])
            shutil.rmtree(d)
            shutil.rmtree(w)
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=w).stdout
    r1 = sh(f"bash {d}/demo.sh", cwd=w)
    ok = True
    if r1.returncode == 0:
        print(sid, "DEMO PASSES WITH BUG")
        ok = False
    if ok:
        # the stable tests, against the scratch copy
        t = sh("/opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider " + " ".join(f"'{n}'" for n in stable()), cwd=w, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1"))
        if t.returncode != 0:
            print(sid, "TESTS FAIL", t.stdout[-600:], t.stderr[-300:])
            ok = False
    if not ok:
        shutil.rmtree(d)
        shutil.rmtree(w)
        return
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    c = sh(f"VERIF_REPO={w} python3 {V}/run.py {spec['property']} quick")
    print(sid, spec["property"], "CAUGHT" if c.returncode == 1 else f"MISSED rc={c.returncode}", c.stdout.strip().splitlines()[0][:200] if c.stdout.strip() else c.stderr[-300:])
    shutil.rmtree(w)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in b:
            return [n.split("::")[0].replace(".", "/") + ".py::" + n.split("::", 1)[1] for n in b[k]]
    raise SystemExit(str(list(b)))


if __name__ == "__main__":
    main()
