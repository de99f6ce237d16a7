"""Run the contracts of one property: prove, search for counterexamples,
write evidence, report."""
import base64
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import pickle
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = None
MEMORY = 3500 << 20      # per worker; a native replay that needs more is skipped
REG = None

TRUSTED = [
    "pyvc (this repository: the VC generator's encoding of Python semantics)",
    "the axioms of pyvc/logic.py about finite sequences, strings and integer arithmetic",
    "the models of Python built-ins and library functions in pyvc/world.py (each a contract on an external function)",
    "z3 (back end)",
    "CPython's own implementation of the built-ins the contracts mention",
]
ASSUMPTIONS = [
    "Python int is a mathematical integer (exactly true of CPython); float operations are uninterpreted functions",
    "no RecursionError/MemoryError/KeyboardInterrupt (resource exhaustion is outside the contracts)",
    "recursive calls are replaced by the contract of the function itself (partial correctness; recursion depth is not bounded)",
    "regular-expression matching and the str methods without a definition in the logic are uninterpreted deterministic functions",
    "warnings printed through the error reporter do not change results",
]


def work(job):
    name, budget, nsamp, secs, seed, thorough = job
    sys.setrecursionlimit(15000)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    from . import contract as C
    from . import native as N
    con = REG[name]
    out = {"name": name, "ce": None, "evals": 0, "distinct": 0}
    t0 = time.time()
    try:
        if con.bounded:
            r = C.Result(name)
            r.status = "bounded"
        else:
            r = C.verify(con, W, budget=budget, thorough=thorough)
        out.update(status=r.status, reason=r.reason, obls=r.obls, paths=r.paths, used=r.used, queries=r.queries,
                   solver=r.solver_time, backends=r.backends, inline=r.inline_obls)
    except Exception as e:
        out.update(status="undecided", reason=f"{type(e).__name__}: {e} at {where(e)}", obls=[], paths=0, used=[],
                   queries=0, solver=0.0, backends={}, inline=0)
    out["tproof"] = time.time() - t0
    if con.native and not (con.parent and out["status"] == "proved"):
        try:
            proved = out["status"] == "proved"
            k, t = (1, 1) if proved else ((16, 10) if con.bounded else (80, 28))
            ev, di, ce = N.search(con, W, seed, nsamp * k, secs * t)
            out["evals"], out["distinct"], out["ce"] = ev, di, ce
        except Exception as e:
            out["native_error"] = f"{type(e).__name__}: {e} at {where(e)}"
    out["time"] = time.time() - t0
    return out


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])


def select(pid):
    names = [n for n, c in REG.items() if pid in c.props]
    return names


def main(argv):
    global W, REG
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    sys.setrecursionlimit(15000)
    try:
        from .load import make_world
        W, REG = make_world()
    except Exception as e:
        # the code does not even load: nothing can be established
        path = os.path.join(outdir, f"{pid}-load.txt")
        with open(path, "w") as f:
            traceback.print_exc(file=f)
        evidence(pid, thorough, seed, [], t0, 1)
        print(f"cannot load the code under verification: {e}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    names = select(pid)
    if not names:
        print(f"no contract for {pid}")
        return 2
    budget = 500.0 if thorough else 240.0
    nsamp, secs = (4000, 20.0) if thorough else (250, 1.5)
    order = sorted(names, key=lambda n: -(REG[n].cost))
    jobs = [(n, budget, nsamp, secs, seed, thorough) for n in order]
    results = []
    ctx = mp.get_context("fork")
    wall = 820 if thorough else 780
    done = set()
    # the property's own contracts, then the contracts their proofs rest on
    while jobs:
        done |= {j[0] for j in jobs}
        left = t0 + wall - time.time()
        with cf.ProcessPoolExecutor(max_workers=min(8, len(jobs)), mp_context=ctx) as ex:
            futs = {ex.submit(work, j): j[0] for j in jobs}
            try:
                for f in cf.as_completed(futs, timeout=max(left, 1)):
                    try:
                        results.append(f.result())
                    except Exception as e:
                        results.append(blank(futs[f], f"worker died: {e}"))
            except cf.TimeoutError:
                for f, n in futs.items():
                    if not f.done():
                        results.append(blank(n, "time limit of the check"))
                for p in list(ex._processes.values()):
                    p.kill()
        more = sorted({u for r in results for u in r["used"]} & set(REG) - done, key=lambda n: -(REG[n].cost))
        jobs = [(n, budget, nsamp // 2, secs / 2, seed, thorough) for n in more]
    for r in results:
        r["own"] = r["name"] in names
    from . import programs
    pres = programs.run_for(pid, W, seed, thorough)
    return report(pid, thorough, seed, results, pres, t0, outdir)


def blank(n, why):
    return {"name": n, "status": "undecided", "reason": why, "obls": [], "paths": 0, "used": [], "queries": 0,
            "solver": 0.0, "backends": {}, "inline": 0, "evals": 0, "distinct": 0, "ce": None, "time": 0, "tproof": 0}


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get("property") == pid and k.get("status") == "known"]


def report(pid, thorough, seed, results, pres, t0, outdir):
    results.sort(key=lambda r: r["name"])
    viol = []
    for r in results:
        if r["ce"] is not None:
            path = os.path.join(outdir, f"{pid}-{r['name'].replace('#', '-')}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "contract": r["name"], "status_of_proof": r["status"],
                           "failed_obligation": r["reason"], "counterexample": r["ce"]}, f, indent=1)
            ce = r["ce"]
            print(f"{r['name']}: on {ce['args']} the code gives {ce['actual']}, the contract {ce['expected']} "
                  f"({ce['why']})")
            viol.append((path, ""))
        elif r["status"] not in ("proved", "bounded"):
            path = os.path.join(outdir, f"{pid}-{r['name'].replace('#', '-')}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "contract": r["name"], "status_of_proof": r["status"],
                           "failed_obligation": r["reason"], "obligations": r["obls"],
                           "verifier_output": r.get("native_error", "")}, f, indent=1)
            print(f"{r['name']}: {r['status']}: {r['reason']}")
            viol.append((path, " no-failing-input-found"))
        if r.get("native_error"):
            print(f"note: {r['name']}: counterexample search failed: {r['native_error']}")
    for p in pres["violations"]:
        path = os.path.join(outdir, f"{pid}-program-{p['id']}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, **p}, f, indent=1)
        print(f"program {p['program']!r}: expected {p['expected']!r}, got {p['actual']!r}")
        viol.append((path, ""))
    for k in pres["known"]:
        print(f"KNOWN-FINDING: property={pid} {k}")
    evidence(pid, thorough, seed, results, t0, len(viol), pres)
    np = sum(1 for r in results if r["status"] == "proved")
    no = sum(len(r["obls"]) for r in results)
    print(f"{pid}: {np}/{len(results)} contracts proved, {no} obligations, "
          f"{sum(r['evals'] for r in results)} native replays, {pres['count']} programs, {time.time() - t0:.1f}s")
    # confirmed inputs first
    viol.sort(key=lambda v: v[1] != "")
    if viol:
        for path, tail in viol[:1] if not viol[0][1] else viol[:1]:
            print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    return 0


def evidence(pid, thorough, seed, results, t0, nviol, pres=None):
    proved = [r for r in results if r["status"] == "proved"]
    ob = sum(len(r["obls"]) + r["inline"] for r in results)
    di = sum(sum(1 for _, s in r["obls"] if s == "proved") + r["inline"] for r in results)
    be = {}
    for r in results:
        for k, v in r["backends"].items():
            be[k] = be.get(k, 0) + v
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": f"python3-vt check.py {pid}" + (" --thorough" if thorough else ""),
        "trusted_base": TRUSTED,
        "functions_under_contract": [{"function": r["name"], "status": r["status"], "paths": r["paths"],
                                      "obligations": len(r["obls"]), "solver_s": round(r["solver"], 2),
                                      "reason": r["reason"]} for r in results],
        "bounded_not_proved": [r["name"] for r in results if r["status"] == "bounded"],
        "contracts_used_by_these": [r["name"] for r in results if not r["own"]],
        "back_ends": be, "solver_queries": sum(r["queries"] for r in results),
        "solver_time_s": round(sum(r["solver"] for r in results), 2),
        "evaluations": sum(r["evals"] for r in results) + (pres["count"] if pres else 0),
        "distinct_nontrivial": sum(r["distinct"] for r in results) + (pres["count"] if pres else 0),
        "rule": "native replay of each contract on enumerated and random arguments next to the real function "
                "(cross-check of the built-in models; bounded, not counted as proved); distinct by printed arguments",
        "programs_run": pres["count"] if pres else 0,
        "samples": [r["obls"][0][0] for r in results if r["obls"]][:5],
    }
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof" if proved else "exploration",
          "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    global W, REG
    from .load import make_world
    W, REG = make_world()
    from . import native as N
    d = json.load(open(path))
    if "counterexample" not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 1
    con = REG[d["contract"]]
    vals = pickle.loads(base64.b64decode(d["counterexample"]["pickle"]))
    bad = N.trial(con, con.real(W), list(con.args), vals)
    print(json.dumps(bad, indent=1) if bad else "the contract holds on the recorded input")
    return 1 if bad else 0
