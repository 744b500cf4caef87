#!/usr/bin/env python3
"""trace.py CHECK [tier]: run a check and print each operation the analysis could not model
(development aid, not part of any check)."""
import ast
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.engine import Interp  # noqa: E402
from sa.kit import Check  # noqa: E402

seen = set()


class Traced(Interp):
    opaque_name = None

    @property
    def opaque_ops(self):
        return self.__dict__.get("_oo", 0)

    @opaque_ops.setter
    def opaque_ops(self, v):
        if v > self.__dict__.get("_oo", 0):
            f = sys._getframe(1)
            node, g = None, f
            while g is not None and node is None:
                n = g.f_locals.get("node", g.f_locals.get("n"))
                if hasattr(n, "lineno"):
                    node = n
                g = g.f_back
            k = (getattr(node, "lineno", None), ast.unparse(node)[:140] if node is not None else "", f"{f.f_code.co_name}:{f.f_lineno}", str(f.f_locals.get("name") or f.f_locals.get("what"))[:60])
            if k not in seen:
                seen.add(k)
                print("OPAQUE", *k, flush=True)
        self.__dict__["_oo"] = v


pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
I = Traced(os.environ.get("VERIF_REPO", "/repo"))
ck = Check(pid, tier, 1)
importlib.import_module(f"checks.{pid.lower()}").run(ck, I, tier)
for (r, s), v in ck.obl.items():
    if v[0] is not True:
        print("VIOLATED" if v[0] is False else "UNDECIDED", r, s, v[1])
