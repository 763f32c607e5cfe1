#!/usr/bin/env python3
"""run.py <property> [--thorough]: one check; exit 0 held, 1 violation, other: no verdict"""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from vt import report

rc = [3]
state = []


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    cx = report.Ctx(pid, tier)
    state.append(cx)
    try:
        mod = importlib.import_module("checks." + pid)
        mod.check(cx)
        rc[0] = report.finish(cx)
    except report.Broken as e:
        print("CHECK-BROKEN %s: %s" % (pid, e))
        partial(cx, 2)
    except Exception:
        traceback.print_exc()
        partial(cx, 3)


def partial(cx, code):
    """the analysis did not come to its end: what it decided before stands, and nothing found is not an answer"""
    rc[0] = code
    if cx.viol:
        cx.cov["explanation"] += " (The analysis did not come to its end.)"
        rc[0] = report.finish(cx) or code


t = threading.Thread(target=main, daemon=True)
t.start()
t.join(None if "--thorough" in sys.argv else 850)
if t.is_alive():
    print("CHECK-BROKEN: out of time")
    if state and state[0].viol:
        partial(state[0], 2)
        sys.stdout.flush()
        os._exit(rc[0])
    sys.stdout.flush()
    os._exit(2)
sys.stdout.flush()
os._exit(rc[0])
