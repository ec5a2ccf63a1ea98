#!/usr/bin/env python3
"""check.py ID: decides one property from /repo's current source."""
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") is None:
    # Every run visits sets in the same order.
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from engine import facts                       # noqa: E402
from engine.report import Report               # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    rep = Report(prop, " ".join((mod.__doc__ or "").split()))
    try:
        prog = facts.load() if getattr(mod, "NEEDS_FACTS", True) else None
        mod.check(prog, rep)
    except facts.FactsError as e:
        # An anchor the rule is about is gone, or the crate does not build.
        rep.bad("anchor", "-", "cannot establish the property: %s" % e)
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        rep.bad("engine", "-", "the analysis does not understand the code: " + tb.strip().splitlines()[-1])
    sys.exit(rep.finish())


if __name__ == "__main__":
    main()
