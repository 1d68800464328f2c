#!/usr/bin/env python3
"""usage: check.py PROPERTY [--thorough]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    import runner
    mod = importlib.import_module(prop.lower())
    c = runner.Check(prop, getattr(mod, "LEVEL", "exploration"))
    c.rule = mod.RULE
    c.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        mod.run(c)
        rc = c.finish()
    except Exception as e:  # the check could not do its work: not a verdict
        if not isinstance(e, runner.B.BuildError):
            traceback.print_exc()
        print("CHECK-ERROR property=%s %s" % (prop, str(e)[-3000:]))
        if c.violations:
            # what was seen before the error is still a verdict
            sys.exit(c.finish() or 2)
        sys.exit(2)
    sys.exit(rc)


main()
