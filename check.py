#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import report
    from prog import Program, AnalysisBroken
    import rules
    rc = 0
    try:
        P = Program()
        for pid in (args if args and args != ["all"] else sorted(rules.registry())):
            R = report.Report(pid, tier)
            for fn in rules.registry()[pid]:
                fn(P, R)
            if not R.obligations:
                raise AnalysisBroken("%s: no obligation found: the rules no longer match the program" % pid)
            rc |= report.finish(R, len(P.units))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
