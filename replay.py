#!/usr/bin/env python3-vt
"""Runs counterexamples on the unpatched code in /repo/src.

  replay.py FILE.json   one counterexample written by a check (exit 1 if it violates)
  replay.py --batch     JSON list of [params, model] on stdin, JSON results on stdout
"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import loader, symex, harness, state          # noqa: E402


def one(rp, fresh, params, model):
    out = {"violated": False, "msg": None, "detail": None, "error": None, "cover": {}}
    fresh.restore()
    eng = symex.Concrete(model)
    try:
        harness.get(params["h"])(eng, rp, params)
    except symex.Violation as v:
        out.update(violated=True, msg=v.msg, detail=str(v.detail))
    except symex.Abort:
        out["msg"] = "assumption false"
    except Exception as e:
        out["error"] = "".join(traceback.format_exception(e))[-2000:]
    out["cover"] = eng.cover
    return out


def main():
    sys.setrecursionlimit(5000)
    rp = loader.load(False)
    fresh = state.State(loader.modules())
    if sys.argv[1] == "--batch":
        cases = json.load(sys.stdin)
        print(json.dumps([one(rp, fresh, p, m) for p, m in cases]))
        return 0
    d = json.load(open(sys.argv[1]))
    r = one(rp, fresh, d["params"], d["model"])
    print(json.dumps(r, indent=1))
    return 1 if r["violated"] else 0


if __name__ == "__main__":
    sys.exit(main())
