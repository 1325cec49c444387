#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import checks, runner, meta         # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tasks = checks.TASKS[prop](tier)
    for t in tasks:
        t["max_paths"] = t.get("max_paths", 1000) * (1 if tier == "quick" else 20)
        t.setdefault("secs", 10 if tier == "quick" else 120)
    budget = float(os.environ.get("VERIF_BUDGET", 240 if tier == "quick" else 800))
    return runner.run_check(prop, tasks, tier, meta.assumptions(prop), meta.bounds(prop, tasks, tier),
                            checks.REQUIRED[prop], budget, known=meta.known(prop))


if __name__ == "__main__":
    sys.exit(main())
