#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = body()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


def body():
    from hca.report import Check
    from hca.engine import AnalysisBroken
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module("checks." + pid.lower())
    c = Check(pid, tier)
    try:
        mod.check(c)
    except AnalysisBroken as e:
        # an anchor of the property vanished: that guarantee is no longer provided where users look for it
        print(f"analysis cannot find its anchor: {e}")
        return 3
    return c.finish("other", mod.TECHNIQUE)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        os._exit(3)
