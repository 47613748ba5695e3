"""Entry point of every check:  python3 checks/run.py <property id>"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)

import checklib  # noqa: E402

MODULES = ("values", "lang", "reader", "build", "app", "deps", "static", "suite", "docs", "asy")


def registry():
    out = {}
    for m in MODULES:
        mod = importlib.import_module(m)
        for pid, fn in mod.CHECKS.items():
            out[pid] = fn
    return out


if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    fns = registry()
    if pid not in fns:
        print("no check for", pid)
        sys.exit(3)
    sys.exit(checklib.main(pid, fns[pid]))
