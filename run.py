#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decide one property of /repo by static analysis."""
import importlib
import os
import resource
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.engine import AnalysisBroken, Interp  # noqa: E402
from sa.kit import Check, TimeUp  # noqa: E402


def main():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))  # running out is an undecided section, not a dead sandbox
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("VERIF_REPO", "/repo")
    ck = Check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(f"checks.{pid.lower()}")
    try:
        I = Interp(root)
    except SyntaxError as e:
        print(f"ERROR property={pid}: /repo does not parse: {e}")
        return 2
    try:
        mod.run(ck, I, tier)
    except TimeUp:
        ck.stopped = True
        ck.und("analysis", pid, "", "out of time")
    except Exception as e:  # outside of any section: what was not reached is undecided
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        ck.und("analysis", pid, "", f"analyser: {type(e).__name__}: {e}")
    signal.setitimer(signal.ITIMER_REAL, 0)
    return ck.finish(I, getattr(mod, "LEVEL", "other"))


if __name__ == "__main__":
    sys.exit(main())
