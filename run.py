#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property from /repo's source."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(50000)

import build
import lib
from report import Ctx


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        out, key = build.facts()
    except build.BuildError as e:
        print(f"error: {e}")
        return 2
    try:
        w = lib.load(out)
        ctx = Ctx(pid, tier, w, key)
        importlib.import_module(pid.lower()).check(ctx)
        importlib.import_module("layers").check(ctx)
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
