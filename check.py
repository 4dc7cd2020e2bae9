#!/usr/bin/env python3
"""check.py <property> : decide one property of the package in /repo by static analysis of its current source."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)

from engine.loader import Program, REPO  # noqa: E402
from engine.ctx import Ctx  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    t0 = time.time()
    if pid == "--selftest":
        prog = Program()
        print(f"parsed {len(prog.modules)} modules, {len(prog.classes)} classes of {REPO}")
        sys.exit(0 if prog.modules and prog.classes else 3)
    prog = Program()
    ctx = Ctx(pid, tier, prog)
    mod = importlib.import_module("checks." + pid.lower())
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}")
        sys.exit(3)
    sys.exit(ctx.finish(time.time() - t0, mod))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def body():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code if isinstance(e.code, int) else 3)
        except BaseException:
            traceback.print_exc()
            rc.append(3)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
