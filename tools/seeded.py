#!/usr/bin/env python3
"""Planted bugs: confirm them and run the checks against them, in scratch copies of /repo.

  seeded.py verify [ID...]          patch applies, tests pass with it, demo separates
  seeded.py run [--all] [ID...]     the check of the bug's property (or all checks) against it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="seeded-")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("__pycache__"))
    return d, d + "/repo"


def demo(bug, repo):
    # in a place of its own, as when it counts
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(bug):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(bug, f), d)
        return sh(["bash", d + "/demo.sh"], repo, 300)
    finally:
        shutil.rmtree(d)


def verify(bid):
    bug = os.path.join(SEEDED, bid)
    d, repo = copy()
    try:
        r = demo(bug, repo)
        if r.returncode:
            return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:]
        r = sh(["git", "apply", bug + "/patch.diff"], repo)
        if r.returncode:
            return "patch does not apply: " + r.stderr
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules", "--doctest-glob=*.rst",
                "tests", "src", "docs/source/pages"], repo, PYTHONPATH=repo + "/src")
        if r.returncode:
            return "tests fail: " + r.stdout[-600:]
        r = demo(bug, repo)
        if r.returncode == 0:
            return "demo passes with the patch"
        return None
    finally:
        shutil.rmtree(d)


def run(bid, every):
    bug = os.path.join(SEEDED, bid)
    prop = json.load(open(bug + "/meta.json"))["property"]
    d, repo = copy()
    try:
        r = sh(["git", "apply", bug + "/patch.diff"], repo)
        assert r.returncode == 0, r.stderr
        props = ["C%02d" % i for i in range(1, 24)] if every else [prop]
        out = {}
        for p in props:
            try:
                r = sh(["python3-vt", "check.py", p, "quick"], ROOT, REPARSEC_SRC=repo + "/src", VERIF_SEED="1")
                out[p] = r.returncode
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:], r.stderr[-1500:])
            except subprocess.TimeoutExpired:
                out[p] = "timeout"
        return prop, out
    finally:
        shutil.rmtree(d)


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    every = "--all" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(SEEDED))
    for b in ids:
        if mode == "verify":
            print(b, verify(b) or "ok", flush=True)
        else:
            prop, out = run(b, every)
            print(b, prop, "CAUGHT" if out.get(prop) == 1 else "MISSED %s" % out.get(prop),
                  "by " + " ".join(k for k, v in out.items() if v == 1) if every else "",
                  " ".join("%s=%s" % kv for kv in out.items() if kv[1] not in (0, 1)), flush=True)


if __name__ == "__main__":
    main()
