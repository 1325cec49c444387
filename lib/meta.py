"""Texts for the evidence files, and the list of known findings."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def assumptions(prop):
    a = ["tokens are integers (any), except where strings or lexer tokens are stated",
         "predicates given to satisfy are pure (uninterpreted functions of the token)",
         "the grammars are the ones of lib/families.py and lib/checks.py (structure is enumerated, inputs are symbolic)",
         "CPython executes the code; only `len`, the `re` module and unbound str methods are replaced by "
         "versions that accept symbolic arguments"]
    if prop == "C10":
        a.append("lexer specifications are arbitrary (a stub that chooses any non-empty match at each position), "
                 "and eight real regular expressions")
    if prop == "C22":
        a.append("location functions are deterministic; the offset, line and column of each position are arbitrary "
                 "integers, independently of each other")
    if prop == "C14":
        a.append("grammars without attempt")
    return a


def bounds(prop, tasks, tier):
    ns = {}
    for t in tasks:
        k = "%s/%s" % (t["h"], t.get("w", "tokens"))
        n = t.get("n") if t.get("n") is not None else len(t.get("fix", t.get("gs", ())))
        ns.setdefault(k, []).append(n)
    return {"tasks": len(tasks), "input length per harness (min..max)":
            {k: "%s..%s" % (min(v), max(v)) for k, v in ns.items()},
            "paths per task": max(t["max_paths"] for t in tasks), "seconds per task": max(t["secs"] for t in tasks),
            "repairs enumerated per path (longer paths are skipped)": 3000}


class Known:
    def __init__(self, d):
        self.d, self.text = d, d["text"]

    def matches(self, r, c):
        p = json.loads(json.dumps(r["params"]))
        return self.d["message"] == c["msg"] and all(p.get(k) == v for k, v in self.d["params"].items())


def known(prop):
    out = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        if line.strip() and not line.startswith("fixed:"):
            d = json.loads(line)
            if d["property"] == prop and d["status"] == "known":
                out.append(Known(d))
    return out
