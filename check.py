#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source.
Exit 0: holds. Exit 1 with a VIOLATION line: broken. Anything the analysis cannot read (an anchor
that is gone, code it cannot model) is reported as a violation of that property, never skipped."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import facts  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    rep = facts.Report(pid, tier, getattr(mod, "LEVEL", "other"))
    try:
        store = facts.Store()
        mod.check(store, rep)
    except facts.GenFailure as e:
        rep.fail("witness:" + e.kind, "the generator's output for a witness schema could not be analysed (%s):\n%s" % (e.kind, e.text))
    except facts.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        rep.fail("engine", "the analysis could not complete on this tree:\n" + traceback.format_exc())
    return facts.finish(rep, mod.RULE, getattr(mod, "TRUSTED", []))


if __name__ == "__main__":
    sys.exit(main())
