#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property by model-based verification: model checks the TLA+ specification, drives the
real code along behaviours of the specification and random ones, and lets TLC explain what was
recorded. Exit 0: held on everything explored. Exit 1: VIOLATION lines. Exit 2: no verdict."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402
from vlib import registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = core.Run(prop, tier, seed)
    try:
        core.build()
        registry.CHECKS[prop](run)
    except core.Enough:
        pass
    except core.ToolError as e:
        print("ERROR: no verdict: %s" % e)
        if run.violations:
            run.finish()
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        if run.violations:
            run.finish()
            return 1
        return 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
