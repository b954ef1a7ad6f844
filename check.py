#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None:     # the same order of exploration in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from sa.runner import Report
from sa.project import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    rep = Report(pid, tier)
    try:
        importlib.import_module("checks." + pid).run(rep)
    except AnalysisBroken as e:
        rep.errors.append(str(e))
    except Exception:
        rep.errors.append(traceback.format_exc())
    sys.exit(rep.finish())


main()
