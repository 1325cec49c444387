#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = ("symbolic execution of the real Python code (own engine on z3): symbolic tokens, lengths, predicates and limits; "
        "assertions decided by the solver for all values within the bounds, counterexamples replayed on the plain code")
NOTE = ("Bounded: every input value within the stated lengths, for the enumerated grammars; nothing is claimed beyond "
        "them. Trusts z3, the symbolic value layer (lib/symex.py, lib/symre.py), which is cross-checked on every run by "
        "replaying a sample of explored paths on unmodified code, and ")
ORACLE = {
    "plain": "the reference semantics of lib/grammar.py (Ref.fast), written from the documentation.",
    "rec": "the reference semantics of lib/grammar.py (Ref.rec), which enumerates all repairs.",
    "agree": "no reference: two runs of the real code are compared.",
    "own": "the assertion stated in the harness.",
}
KIND = {"C01": "plain", "C02": "plain", "C03": "plain", "C04": "plain", "C05": "plain", "C06": "plain", "C07": "plain",
        "C08": "own", "C09": "own", "C10": "own", "C11": "rec", "C12": "rec", "C13": "agree", "C14": "agree", "C15": "own",
        "C16": "own", "C17": "rec", "C18": "rec", "C19": "agree", "C20": "rec", "C21": "rec",
        "C22": "rec", "C23": "own", "C24": "plain"}
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3'",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3-vt check.py %s quick" % p["id"],
        "thorough_cmd": "python3-vt check.py %s thorough" % p["id"],
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE + ORACLE[KIND[p["id"]]],
    } for p in PROPS],
    "not_applicable": [],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
