"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ("the repository's unit tests exercise a few hand-picked values of the data types only; no test runs an operator, "
         "a program, the parser or the scanner")
P = []


def prop(id, title, statement, over, text, files, mech, why=None, observe=None, level_note="", na=None, technique=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=(why or "It is quantified over all values; ") + ("" if why else TESTS) + ".",
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["results of the real functions called on real values"],
                               hook_needed=None), _note=level_note, _na=na, _tech=technique, _level=level))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
TECH = ("contract-based deductive verification: Python contracts on the functions of /repo; the pyvc VC generator executes the real "
        "source symbolically against them and z3 discharges every obligation; failed obligations are replayed as concrete "
        "counterexamples on the real code")
checks, na = [], []
for p in P:
    if p["_na"]:
        na.append(dict(property=p["id"], reason=p["_na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']}",
                       thorough_cmd=f"python3-vt check.py {p['id']} --thorough", technique=p["_tech"] or TECH,
                       level=p["_level"], level_note=p["_note"] or "see DESIGN.md"))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
