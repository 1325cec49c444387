"""Runs the tasks of one property on all cores, replays what fails, writes evidence."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from . import symex, loader, state

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RP = None
STATE = None


def _init():
    global RP, STATE
    import gc
    gc.freeze()
    sys.setrecursionlimit(5000)
    RP = loader.load(True)
    STATE = state.State(loader.modules())


class _Funcs:
    def __init__(self):
        self.seen = set()

    def prof(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(loader.SRC):
                self.seen.add(os.path.relpath(c.co_filename, loader.SRC) + ":" + c.co_qualname)


def run_task(args):
    params, eager, deadline, sample_every = args
    from . import harness
    t0 = time.monotonic()
    out = {"params": params, "violation": None, "error": None, "truncated": False}
    if deadline is not None and t0 > deadline:
        out["skipped"] = True
        out["stats"] = {}
        return out
    if params.get("secs"):
        limit = t0 + params["secs"]
        deadline = limit if deadline is None else min(limit, deadline)
    eng = symex.Engine(eager=eager, deadline=deadline)
    eng.reset = STATE.restore
    eng.sample_every = 1 if params.get("validate") else sample_every
    fn = harness.get(params["h"])
    funcs = _Funcs()
    STATE.restore()
    first = [True]

    def body(e):
        if first[0]:
            first[0] = False
            sys.setprofile(funcs.prof)
            try:
                fn(e, RP, params)
            finally:
                sys.setprofile(None)
        else:
            fn(e, RP, params)
    try:
        eng.explore(body, params.get("max_paths"))
    except symex.Violation as v:
        out["violation"] = {"msg": v.msg, "model": v.model, "detail": str(v.detail)}
    except symex.Abort:
        pass
    except BaseException as e:     # harness or proxy limitation
        if isinstance(e, KeyboardInterrupt):
            raise
        out["error"] = "".join(traceback.format_exception(e))[-3000:]
    out["truncated"] = eng.truncated
    out["stats"] = eng.stats
    out["cover"] = eng.cover
    out["funcs"] = sorted(funcs.seen)
    out["samples"] = eng.samples[:60 if params.get("validate") else 4]
    out["wall"] = time.monotonic() - t0
    return out


def replay_batch(cases, timeout=600):
    """Runs (params, model) pairs on the unpatched code in a fresh process."""
    if not cases:
        return []
    p = subprocess.run([sys.executable, "-B", os.path.join(ROOT, "replay.py"), "--batch"],
                       input=json.dumps(cases), capture_output=True, text=True,
                       timeout=timeout, cwd=ROOT)
    if p.returncode != 0:
        raise RuntimeError("replay failed: " + p.stderr[-2000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def run_check(prop, tasks, tier, assumptions, bounds, required=(), budget=None, procs=None,
              known=()):
    t0 = time.monotonic()
    procs = procs or min(8, os.cpu_count() or 1)
    deadline = t0 + budget if budget else None
    stats, cover, funcs = {}, {}, set()
    viols, errors, samples, cut, always = [], [], [], [], []
    truncated = skipped = done = eager_runs = 0
    notes = []
    every = 40 if tier == "quick" else 100
    confirmed = []
    spurious = 0

    def unknown(cs):
        return [x for x in cs if not any(k.matches(*x) for k in known)]
    with mp.get_context("fork").Pool(procs, initializer=_init) as pool:
        def consume(res, again):
            nonlocal truncated, skipped, done
            merge(stats, res.get("stats", {}))
            merge(cover, res.get("cover", {}))
            funcs.update(res.get("funcs", ()))
            if res.get("skipped"):
                skipped += 1
                return
            done += 1
            if res["truncated"]:
                truncated += 1
                cut.append({"task": res["params"], "paths": res["stats"].get("paths", 0)})
            for m in res.get("samples", ()):
                (always if res["params"].get("validate") else samples).append((res["params"], m))
            if res["violation"] or res["error"]:
                again.append(res)

        again, retry = [], []

        def replay_all():
            # replay counterexamples on unpatched code
            nonlocal spurious
            cex = [r for r in again if r["violation"]]
            retry.extend(r for r in again if not r["violation"])
            again.clear()
            for r, c in zip(cex, replay_batch([(r["params"], r["violation"]["model"]) for r in cex])):
                if c["violated"]:
                    confirmed.append((r, c))
                else:
                    spurious += 1
                    retry.append(r)
        for res in pool.imap_unordered(run_task, [(p, False, deadline, every) for p in tasks], 1):
            consume(res, again)
            if sum(1 for r in again if r["violation"]) >= 24:
                replay_all()
                if unknown(confirmed):
                    pool.terminate()
                    notes.append("stopped after %d confirmed counterexamples" % len(confirmed))
                    break
        replay_all()
    unresolved = []
    if not unknown(confirmed) and retry:
        # the code went where the proxies cannot follow: explore those tasks again
        # with values forked to concrete members of a small alphabet
        with mp.get_context("fork").Pool(procs, initializer=_init) as pool:
            again2 = []
            for res in pool.imap_unordered(run_task, [(r["params"], True, deadline, every) for r in retry], 1):
                eager_runs += 1
                merge(stats, res.get("stats", {}))
                if res["violation"] or res["error"]:
                    again2.append(res)
        cex = [r for r in again2 if r["violation"]]
        for r, c in zip(cex, replay_batch([(r["params"], r["violation"]["model"]) for r in cex])):
            if c["violated"]:
                confirmed.append((r, c))
            else:
                unresolved.append((r, c))
        unresolved += [(r, None) for r in again2 if r["error"]]
    # validate the encoding: models of explored paths, run on the unpatched code
    val = samples[:: max(1, len(samples) // (300 if tier == "quick" else 2000))] + always
    validated = 0
    if not unknown(confirmed):
        for (p, m), c in zip(val, replay_batch(val)):
            if c["violated"]:
                confirmed.append(({"params": p, "violation": {"msg": c["msg"], "model": m,
                                                              "detail": c["detail"]}}, c))
            elif c["error"]:
                errors.append(c["error"])
            else:
                validated += 1

    wall = time.monotonic() - t0
    new, old = [], []
    for r, c in confirmed:
        k = next((k for k in known if k.matches(r, c)), None)
        (old if k else new).append((r, c, k))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": stats.get("paths", 0),
            "transitions": stats.get("branches", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": p, "inputs": m} for p, m in val[:3]],
            "tasks": done, "tasks_not_started_in_time": skipped, "tasks_cut": truncated,
            "paths_infeasible": stats.get("aborted", 0),
            "branch_points": stats.get("forks", 0),
            "solver_queries": stats.get("queries", 0),
            "solver_seconds": round(stats.get("solver_s", 0), 2),
            "assertions": stats.get("checks", 0),
            "assertions_decided_by_query": stats.get("proved", 0),
            "assertions_decided_by_path_condition": stats.get("trivial", 0),
            "solver_unknown": stats.get("unknown", 0),
            "alphabet_restrictions": stats.get("restricted", 0),
            "tasks_rerun_with_concretised_values": eager_runs,
            "counterexamples_not_reproduced": spurious,
            "tasks_undecided": len(unresolved),
            "explored_in_part": cut,
            "reached": dict(sorted(cover.items())),
            "functions_encoded": sorted(funcs),
            "bounds": bounds,
            "notes": notes,
        },
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d tasks (%d skipped, %d cut), %d paths, %d queries (%.1f s solver), "
          "%d assertions, %d traces replayed, %.1f s" %
          (prop, tier, done, skipped, truncated, stats.get("paths", 0), stats.get("queries", 0),
           stats.get("solver_s", 0), stats.get("checks", 0), validated, wall))
    for text in sorted({k.text for r, c, k in old}):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if new:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (r, c, _) in enumerate(new[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "params": r["params"], "model": r["violation"]["model"],
                           "message": c["msg"], "detail": c["detail"]}, f, indent=1)
            print("  %s | %s" % (c["msg"], c["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unresolved:
        # what was decided holds; programs the encoding could not follow are
        # listed in the evidence, and too many of them are no answer
        for r, c in unresolved[:3]:
            print("UNDECIDED %s: %s" % (r["params"], (r["error"] or "counterexample does not reproduce: %s / %s"
                                                     % (r["violation"], c))[-1500:]))
        if len(unresolved) * 4 > len(tasks):
            print("INCONCLUSIVE: %d of %d tasks undecided" % (len(unresolved), len(tasks)))
            return 3
    if errors:
        print("INCONCLUSIVE: validation error:", errors[0][-1500:])
        return 3
    missing = [x for x in required if not cover.get(x)]
    if missing and not (skipped or truncated):
        print("INCONCLUSIVE: never reached: %s" % missing)
        return 3
    return 0
