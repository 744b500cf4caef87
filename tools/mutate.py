#!/usr/bin/env python3
"""Mutation study (development aid, not part of any check):
mutate.py FILE[:func,func] CHECK[,CHECK...] [max] [seed]
Applies small syntactic changes to one repository file in scratch copies and runs the checks on them."""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sites(tree, funcs):
    out = []

    def visit(node, qual, on):
        for child in ast.iter_child_nodes(node):
            q, o = qual, on
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                q = f"{qual}.{child.name}" if qual else child.name
                o = on or not funcs or child.name in funcs or q in funcs
            if o:
                muts(child, q, out)
            visit(child, q, o)

    visit(tree, "", not funcs)
    return out


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def muts(n, q, out):
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            for t in CMP.get(type(op), []):
                out.append((q, n, f"cmp {type(op).__name__}->{t.__name__}", lambda m, i=i, t=t: m.ops.__setitem__(i, t())))
    elif isinstance(n, (ast.BinOp, ast.AugAssign)):
        for t in BIN.get(type(n.op), []):
            out.append((q, n, f"op {type(n.op).__name__}->{t.__name__}", lambda m, t=t: setattr(m, "op", t())))
    elif isinstance(n, ast.BoolOp):
        t = ast.Or if isinstance(n.op, ast.And) else ast.And
        out.append((q, n, f"bool->{t.__name__}", lambda m, t=t: setattr(m, "op", t())))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        out.append((q, n, "bool const", lambda m: setattr(m, "value", not m.value)))
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
        out.append((q, n, f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1)))
        if n.value > 0:
            out.append((q, n, f"const {n.value}-1", lambda m: setattr(m, "value", m.value - 1)))
    elif isinstance(n, ast.IfExp):
        out.append((q, n, "ifexp swap", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse)))
    elif isinstance(n, ast.If):
        out.append((q, n, "negate if", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        if not n.orelse:
            out.append((q, n, "drop if test", lambda m: setattr(m, "test", ast.Constant(True))))
    elif isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                out.append((q, n, f"swap args {i}", lambda m, i=i: m.args.__setitem__(slice(i, i + 2), [m.args[i + 1], m.args[i]])))
        for i, k in enumerate(n.keywords):
            if k.arg:
                out.append((q, n, f"drop kw {k.arg}", lambda m, i=i: m.keywords.pop(i)))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"):
            out.append((q, n, "drop copy", "copy"))
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for a, b in (("onset", "offset"), ("tonic", "mode"), ("local", "relative"), ("root", "bass"), ("global", "local"), ("MAJOR", "MINOR"), ("TPC", "MIDI"), ("chord", "key"), ("change", "transition"), ("min", "max"), ("start", "end")):
            for x, y in ((a, b), (b, a)):
                if x in n.attr and y != x:
                    out.append((q, n, f"attr {n.attr}->{n.attr.replace(x, y)}", lambda m, x=x, y=y: setattr(m, "attr", m.attr.replace(x, y))))
    if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.While, ast.With, ast.Try)):
        for f in ("body", "orelse"):
            for i, s in enumerate(getattr(n, f, []) or []):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    if "logging" in ast.dump(s) or "print" in ast.dump(s):
                        continue
                    out.append((q, s, f"drop stmt `{ast.unparse(s)[:50]}`", ("drop", n, f, i)))


def apply(src, k, funcs):
    tree = ast.parse(src)
    q, n, d, fn = sites(tree, funcs)[k]
    if fn == "copy":
        class R_(ast.NodeTransformer):
            def visit_Call(s, c):
                s.generic_visit(c)
                if c is n:
                    return c.func.value if not c.args else c.args[0]
                return c
        tree = R_().visit(tree)
    elif isinstance(fn, tuple):
        _, par, f, i = fn
        getattr(par, f)[i] = ast.copy_location(ast.Pass(), getattr(par, f)[i])
    else:
        fn(n)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), f"{q}:{n.lineno} {d}  `{ast.unparse(n)[:90]}`"


def main():
    spec, checks = sys.argv[1], sys.argv[2].split(",")
    mx = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    rel, _, fs = spec.partition(":")
    funcs = set(fs.split(",")) if fs else set()
    src = open(f"{R}/{rel}").read()
    ks = list(range(len(sites(ast.parse(src), funcs))))
    random.Random(seed).shuffle(ks)
    ks = sorted(ks[:mx])

    def one(k):
        try:
            new, desc = apply(src, k, funcs)
        except Exception as e:
            return (k, "skip", repr(e), "")
        d = f"/tmp/mut/{os.getpid()}_{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f"cd {R} && git ls-files -z '*.py' | xargs -0 cp --parents -t {d}", shell=True, check=True)
        open(f"{d}/{rel}", "w").write(new)
        res, und = "SURVIVED", ""
        for c in checks:
            try:
                r = subprocess.run([sys.executable, f"{V}/run.py", c], capture_output=True, text=True, timeout=800, env={**os.environ, "VERIF_REPO": d, "VERIF_EVID": d})
            except subprocess.TimeoutExpired:
                und += f" {c}:timeout"
                continue
            if r.returncode == 1:
                res = "killed"
                und = c
                break
            if r.returncode != 0:
                und += f" {c}:rc{r.returncode}"
            m = [l for l in r.stdout.splitlines() if l.startswith("note: undecided")]
            if m:
                res = "undecided"
                und += f" {c}:{m[0][17:130]}"
        shutil.rmtree(d, ignore_errors=True)
        return (k, res, desc, und)

    tot = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for k, res, desc, und in ex.map(one, ks):
            tot[res] = tot.get(res, 0) + 1
            if res != "killed":
                print(res, k, desc, "|", und, flush=True)
    print(tot)


main()
