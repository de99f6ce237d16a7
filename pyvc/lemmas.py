"""Proof of a single obligation: direct, then with relational lemmas between
the recurrences of the code's loops and those of the specification's loops
(proved by induction), then with further solver seeds."""
import itertools
import time
import z3
from . import logic as L
from .logic import Val, SQ, ST
from .ctx import Forall, occurs, has_ite, TRUE, FALSE


def split_goal(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += split_goal(c)
        return r
    return [g]


def prove_obligation(I, hyps, goal, recs, deadline, thorough=False):
    P = I.prover
    if z3.is_true(goal):
        return True
    if z3.is_or(goal) and goal.num_args() == 2 and z3.is_eq(goal.arg(0)) and goal.arg(0).arg(0).sort().name() == "St":
        # two sufficient ways to show that two states are equal (see effects.state_eq)
        if P.prove(hyps, goal.arg(0), timeout=3000) == "proved":
            return True
        goal = goal.arg(1)
    goals = split_goal(goal)
    left = []
    for g in goals:
        if z3.is_false(g):
            # only an infeasible path can discharge it
            if P.prove(hyps, g, timeout=3000) != "proved":
                left.append(g)
            continue
        if P.prove(hyps, g, timeout=3000) != "proved":
            left.append(g)
    if not left:
        return True
    if time.time() > deadline:
        return False
    ext = nested_pairs(hyps + [goal])
    if ext:
        left = [g for g in left if P.prove(hyps, g, timeout=5000, extra=ext) != "proved"]
        if not left:
            return True
    extra = (pair_recurrences(I, hyps, recs, deadline, ext) if recs else []) + ext
    for g in left:
        if time.time() > deadline:
            return False
        if P.prove(hyps, g, timeout=8000, seeds=(0, 7, 12), extra=extra) != "proved":
            return False
    return True


def nested_pairs(fs):
    """Extensionality hints between the sequences built inside generic
    iterations (pair is a predicate that holds of everything)."""
    found = {}
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            walk(t.body())
            return
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() and "!" in d.name() and t.sort() in (L.Str, L.VSeq) \
                    and not d.name().startswith("lit!") and (
                        d.name().startswith("cmap!") or all(d.domain(i) == L.I for i in range(d.arity()))):
                found[d.name()] = d
            for c in t.children():
                walk(c)
    for f in fs:
        walk(f)
    ds = sorted(found.values(), key=lambda d: d.name())
    if len(ds) > 14:
        ds = [d for d in ds if d.name().startswith("map!")][:40]
    if len(ds) < 2:
        return []
    out = []
    for a, b in itertools.combinations(ds, 2):
        if a.range() != b.range():
            continue
        if a.name().startswith("cmap!") or b.name().startswith("cmap!"):
            xs = [z3.Const(f"np!{i}", a.domain(i)) for i in range(a.arity())]
            ys = [z3.Const(f"nq!{i}", b.domain(i)) for i in range(b.arity())]
            out.append(z3.ForAll(xs + ys, SQ.pair(a(*xs), b(*ys)), patterns=[z3.MultiPattern(a(*xs), b(*ys))]))
            continue
        if a.arity() != b.arity():
            continue
        ks = [z3.Int(f"np!{i}") for i in range(a.arity())]
        th = L.theory_of(a.range())
        out.append(z3.ForAll(ks, th.pair(a(*ks), b(*ks)), patterns=[z3.MultiPattern(a(*ks), b(*ks))]))
    return out


class Cand:
    """A candidate relation between a recurrence a of one side and a recurrence
    b of the other: F == G, or, when the first state of a is a term t over the
    first state of b (a loop that runs part of its body before entering),
    F(k) == t(G(k))."""
    __slots__ = ("a", "b", "off")

    def __init__(self, a, b, off):
        self.a, self.b, self.off = a, b, off


def pair_recurrences(I, hyps, recs, deadline, ext=()):
    """Lemmas relating F(k) and G(k) for all k, by simultaneous induction
    (Houdini)."""
    P = I.prover
    rl = list(recs.values())

    def inst(r, outer, kk):
        return r["F"].decl(*(outer + [kk]))

    def subst(r, t, outer, kk):
        subs = list(zip(r["outer"], outer)) + [(r["k"], kk)]
        return z3.substitute(t, *[(x, y) for x, y in subs if not x.eq(y)]) if subs else t

    cands = []
    for a, b in itertools.combinations(rl, 2):
        if a["spec"] == b["spec"] or len(a["outer"]) != len(b["outer"]):
            continue
        if a["sort"] == b["sort"]:
            cands.append(Cand(a, b, False))
        for x, y in ((a, b), (b, a)):
            if y["sort"] == L.St:
                yi = subst(y, y["init"], list(x["outer"]), x["k"])
                if not x["init"].eq(yi) and occurs(yi, x["init"]):
                    cands.append(Cand(x, y, True))
    if not cands:
        return []

    bounds = {}

    def bound(c):
        """Common iteration count of the two loops, if there is one."""
        a, b = c.a, c.b
        key = (a["name"], b["name"])
        if key not in bounds:
            r = None
            if a["n"] is not None and b["n"] is not None:
                o, kk = a["outer"], a["k"]
                nb = subst(b, b["n"], o, kk)
                if a["n"].eq(nb) or P.prove(hyps, a["n"] == nb, timeout=1000) == "proved":
                    r = a["n"]
            bounds[key] = r
        return bounds[key]

    def exits(c, kk, last):
        """Iterations up to which neither loop was left by break."""
        out = []
        for r in (c.a, c.b):
            if r.get("exit") is not None:
                out.append(kk <= r["exit"] if last else z3.And(kk < r["exit"], z3.substitute(r["falls_if"], (r["k"], kk))))
        return out

    def image(c, t, o, kk):
        """The right-hand side of the relation, at the state t of b."""
        if not c.off:
            return t
        ai = subst(c.a, c.a["init"], o, kk)
        return z3.substitute(ai, (subst(c.b, c.b["init"], o, kk), t))

    def sides(c, o, kk):
        return inst(c.a, o, kk), image(c, inst(c.b, o, kk), o, kk)

    def stmt(c, o, kk):
        x, y = sides(c, o, kk)
        return x == y

    def forall(c, vs, o, kk, rng):
        x, y = sides(c, o, kk)
        return z3.ForAll(vs, z3.Implies(z3.And(*rng), x == y),
                         patterns=[p for p in (x, inst(c.b, o, kk)) if not has_ite(p)])

    def lemma(c):
        o = [z3.Int(f"lo!{i}") for i in range(len(c.a["outer"]))]
        kk = z3.Int("lk!")
        rng = [kk >= 0]
        n = bound(c)
        if n is not None:
            rng.append(kk <= subst(c.a, n, o, kk))
        rng += exits(c, kk, True)
        return forall(c, o + [kk], o, kk, rng)

    def around(live, o, kk):
        """Simultaneous induction over nested loops.  For an inner loop, the
        enclosing loops are related at the current iteration; for an enclosing
        loop, the inner loops of this iteration are related throughout."""
        out = [x >= 0 for x in o]
        d = len(o)
        for c in live:
            dx = len(c.a["outer"])
            if dx < d:
                out.append(stmt(c, list(o[:dx]), o[dx]))
            elif kk is not None and dx == d + 1:
                ik = z3.Int("ik!")
                oo = list(o) + [kk]
                rng = [ik >= 0]
                n = bound(c)
                if n is not None:
                    rng.append(ik <= subst(c.a, n, oo, ik))
                out.append(forall(c, [ik], oo, ik, rng))
        return out

    done, lem = [], []
    for _ in range(4):
        live = [c for c in cands if c not in done]
        while live and time.time() < deadline:
            keep = []
            for c in live:
                a, b = c.a, c.b
                o = a["outer"]
                kk = a["k"]
                if not c.off:
                    base = I.val_eq2(a["init"], subst(b, b["init"], o, kk))
                    if P.prove(hyps + around(live, o, None), base, timeout=1500) != "proved":
                        continue
                # induction hypothesis for all live pairs at index kk
                ih = []
                nc = bound(c)
                for x in live:
                    if len(x.a["outer"]) != len(o):
                        continue
                    nx = bound(x)
                    if nx is not None and x is not c and not (
                            nc is not None and subst(x.a, nx, o, kk).eq(nc)):
                        continue
                    if x is not c and [r.get("exit") is not None and r["exit"].get_id() for r in (x.a, x.b)] != \
                            [r.get("exit") is not None and r["exit"].get_id() for r in (a, b)]:
                        continue
                    ih.append(stmt(x, o, kk))
                ih += around(live, o, kk)
                ua = a["U"]
                ub = image(c, subst(b, b["U"], o, kk), o, kk)
                rng = [kk >= 0] + ([kk < nc] if nc is not None else []) + exits(c, kk, False)
                step = I.val_eq2(ua, ub)
                if P.prove(hyps + rng + ih, step, timeout=4000, seeds=(0, 7)) == "proved" or \
                        ext and P.prove(hyps + rng + ih, step, timeout=6000, extra=ext) == "proved":
                    keep.append(c)
            if len(keep) == len(live):
                break
            live = keep
        if not live:
            break
        # lemmas proved so far are available for the remaining pairs
        done += live
        lem = [lemma(c) for c in done]
        hyps = hyps + lem
        if time.time() > deadline or len(done) == len(cands):
            break
    return lem
