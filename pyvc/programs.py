"""Closed facts (decided by evaluating them on the loaded modules: every
instance of a finite table is checked) and the committed known findings
(replayed on every run)."""
import contextlib
import io
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FACTS = {}          # property -> [(id, function)]; function() -> [description of each failing instance], instances


def fact(name, props):
    def deco(f):
        for p in props:
            FACTS.setdefault(p, []).append((name, f))
        return f
    return deco


def findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def run_program(code, args=()):
    """(outcome text, output) of a Pip program run by the real interpreter."""
    pm = sys.modules["pip_main"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            pm.pip(code, list(args))
            res = "ok"
        except SystemExit:
            res = "exit"
        except Exception as e:
            res = f"raises {type(e).__name__}"
    return res, out.getvalue()


def run_for(pid, world, seed, thorough):
    viol, known, n = [], [], 0
    for name, f in FACTS.get(pid, []):
        try:
            bad, k = f()
        except Exception as e:
            bad, k = [f"the fact cannot be evaluated: {type(e).__name__}: {e}"], 1
        n += k
        if bad:
            viol.append({"id": name, "program": name, "expected": "every instance holds", "actual": bad[:5]})
    for k in findings():
        if k["property"] == pid and k["status"] == "known":
            res, out = run_program(k["program"])
            if res == k["outcome"]:
                known.append(k["what"])
    return {"violations": viol, "known": known, "count": n}
