"""Path exploration, path conditions and solver access."""
import time
import z3
import z3.z3
from . import logic as L
from .values import *

z3.z3.Z3_DEBUG = False
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def has_quant(e, _cache={}):
    i = e.get_id()
    r = _cache.get(i)
    if r is None:
        if z3.is_quantifier(e):
            r = True
        else:
            r = any(has_quant(c) for c in e.children())
        _cache[i] = r
        _keep.append(e)
    return r


_keep = []


class Explorer:
    __slots__ = ("decisions", "pos", "high")

    def __init__(self):
        self.decisions = []
        self.pos = 0
        self.high = 0       # the names given so far


class Ctx:
    def __init__(self, deadline=None, max_paths=4000):
        self.log = []               # entries (kind, formula): 'pc' / 'def'
        self.journal = []           # undo closures
        self.explorers = []
        self.generics = []          # enclosing generic loop indices
        self.counter = 0
        self.tags = {}
        self.keep = []
        self.feas_cache = {}
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 400)
        self.sstack = []
        self.nqueries = 0
        self.solver_time = 0.0
        self.npaths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.memo = {}
        self.canon = {}            # loop-defined symbols -> canonical terms (canon.py)
        self.recs = {}              # recurrence functions: name -> record
        self.seen_def = set()
        self.obligations = []
        self.serial = 0

    # ---- journal ------------------------------------------------------
    def mark(self):
        return (len(self.journal), len(self.log))

    def rollback(self, m):
        j, l = m
        while len(self.journal) > j:
            self.journal.pop()()
        del self.log[l:]

    def undo(self, f):
        self.journal.append(f)

    _MISSING = object()

    def setitem(self, d, key, val):
        old = d.get(key, self._MISSING)
        d[key] = val
        if old is self._MISSING:
            def u():
                d.pop(key, None)
        else:
            def u():
                d[key] = old
        self.journal.append(u)

    def delitem(self, d, key):
        old = d[key]
        del d[key]

        def u():
            d[key] = old
        self.journal.append(u)

    def setattr(self, o, name, val):
        old = getattr(o, name)
        setattr(o, name, val)
        self.journal.append(lambda: setattr(o, name, old))

    # ---- names ---------------------------------------------------------
    def fresh(self, prefix, sort):
        self.counter += 1
        nm = f"{prefix}!{self.counter}"
        if self.generics:
            f = z3.Function(nm, *([L.I] * len(self.generics) + [sort]))
            return f(*self.generics)
        return z3.Const(nm, sort)

    def fresh_fn(self, prefix, *sorts):
        """A fresh function whose leading arguments are the enclosing generic
        indices; returns a Python callable over the remaining arguments."""
        self.counter += 1
        nm = f"{prefix}!{self.counter}"
        g = list(self.generics)
        f = z3.Function(nm, *([L.I] * len(g) + list(sorts)))
        call = lambda *a: f(*(g + list(a)))
        call.decl = f
        call.outer = g
        return call

    # ---- assumptions ----------------------------------------------------
    def assume(self, f):
        f = z3.simplify(f) if not has_quant(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.log.append(("pc", f))
        if z3.is_eq(f):
            x, y = f.children()
            if z3.is_int_value(x):
                x, y = y, x
            if z3.is_int_value(y):
                self.keep.append(x)
                self.setitem(self.memo, ("const", x.get_id()), y)

    def const(self, t):
        """The numeral this term is known to equal on this path, or itself."""
        return self.memo.get(("const", t.get_id()), t)

    def define(self, f):
        """Record a definitional fact (true of the symbols it introduces)."""
        if z3.is_true(f):
            return
        i = f.get_id()
        key = ("def", i)
        if key in self.memo:
            return
        self.keep.append(f)
        self.setitem(self.memo, key, True)
        self.log.append(("def", f))

    def sync(self):
        want = self.log
        st = self.sstack
        n = 0
        m = min(len(st), len(want))
        while n < m and st[n] is want[n][1]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for i in range(n, len(want)):
            self.solver.push()
            f = want[i][1]
            if not has_quant(f):
                self.solver.add(f)
            st.append(f)

    def check(self, cond):
        """sat / unsat / unknown of the ground part of the path with cond."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function exhausted")
        if z3.is_true(cond):
            return z3.sat
        if z3.is_false(cond):
            return z3.unsat
        key = (hash(tuple(f.get_id() for _, f in self.log)), len(self.log), cond.get_id())
        r = self.feas_cache.get(key)
        if r is None:
            self.sync()
            t = time.time()
            if has_quant(cond):
                r = z3.unknown
            else:
                self.solver.push()
                self.solver.add(cond)
                r = self.solver.check()
                self.solver.pop()
            self.solver_time += time.time() - t
            self.nqueries += 1
            self.feas_cache[key] = r
            self.keep.append(cond)
            self.keep.extend(f for _, f in self.log)
        return r

    def feasible(self, cond):
        return self.check(cond) != z3.unsat

    def entails(self, cond):
        return self.check(z3.simplify(z3.Not(cond)) if not has_quant(cond) else z3.Not(cond)) == z3.unsat

    # ---- branching --------------------------------------------------------
    def choose(self, conds):
        ex = self.explorers[-1]
        if ex.pos < len(ex.decisions):
            opts, i = ex.decisions[ex.pos]
            ex.pos += 1
            if ex.pos == len(ex.decisions):
                # here this path leaves the ones seen before: what it
                # introduces from now on needs new names
                self.counter = max(self.counter, ex.high)
            self.assume(conds[opts[i]])
            return opts[i]
        opts = [i for i, c in enumerate(conds) if self.feasible(c)]
        if not opts:
            raise Infeasible()
        ex.decisions.append([opts, 0])
        ex.pos += 1
        self.assume(conds[opts[0]])
        return opts[0]

    def branch(self, cond):
        """Fork on a z3 condition; returns a Python bool."""
        if not has_quant(cond):
            cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def nondet(self, n):
        """Unconditional n-way fork."""
        return self.choose([TRUE] * n)

    def explore(self, thunk):
        """Run thunk along every path.  Returns [(pcs, defs, outcome)]; all
        effects are rolled back."""
        ex = Explorer()
        self.explorers.append(ex)
        out = []
        start = ex.high = self.counter
        try:
            while True:
                m = self.mark()
                ex.pos = 0
                self.counter = start
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported("too many paths")
                try:
                    r = thunk()
                    pcs = [f for k, f in self.log[m[1]:] if k == "pc"]
                    defs = [f for k, f in self.log[m[1]:] if k == "def"]
                    out.append((pcs, defs, r))
                except Infeasible:
                    pass
                finally:
                    self.rollback(m)
                    self.counter = ex.high = max(ex.high, self.counter)
                d = ex.decisions
                while d and d[-1][1] + 1 >= len(d[-1][0]):
                    d.pop()
                if not d:
                    return out
                d[-1][1] += 1
        finally:
            self.explorers.pop()


_touch = {}


def touched(goal):
    """The ground terms inside the quantified parts of a goal, as facts of an
    otherwise unused predicate: they can then trigger instantiations."""
    out, seen = [], {}

    def ground(t):
        if z3.is_var(t) or z3.is_quantifier(t):
            return False
        r = seen.get(t.get_id())
        if r is None:
            r = seen[t.get_id()] = all([ground(x) for x in t.children()])
        return r

    def walk(t, inside):
        if z3.is_quantifier(t):
            walk(t.body(), True)
        elif z3.is_app(t):
            if inside and t.num_args() and t.sort().kind() != z3.Z3_BOOL_SORT and ground(t):
                out.append(t)
                return
            for x in t.children():
                walk(x, inside)
    walk(goal, False)
    facts = []
    for t in {x.get_id(): x for x in out}.values():
        n = t.sort().name()
        if n not in _touch:
            _touch[n] = z3.Function("touch_" + n, t.sort(), z3.BoolSort())
        facts.append(_touch[n](t))
    return facts


# ---------------------------------------------------------------------------
class Prover:
    """Discharges obligations with z3 (full axiom set), cvc5 as second."""

    def __init__(self):
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.backends = {}

    def prove(self, hyps, goal, timeout=4000, seeds=(0,), extra=()):
        goal_s = goal
        if z3.is_true(goal_s):
            return "proved"
        key = (frozenset(h.get_id() for h in hyps), goal.get_id(), frozenset(e.get_id() for e in extra))
        done = self.cache.get(key)
        if done is not None and (done == "proved" or done >= (timeout, len(seeds))):
            return done if done == "proved" else "unknown"
        t = time.time()
        res = "unknown"
        for sd in seeds:
            s = z3.SimpleSolver()
            s.set("auto_config", False)
            s.set("mbqi", False)
            s.set("timeout", timeout)
            if sd:
                s.set("random_seed", sd)
                if sd % 2:
                    s.set("qi.eager_threshold", 30.0)
            for _, a in L.AXIOMS:
                s.add(a)
            for f in L.literal_facts():
                s.add(f)
            for h in hyps:
                s.add(h)
            for h in extra:
                s.add(h)
            for h in touched(goal):
                s.add(h)
            s.add(z3.Not(goal))
            self.queries += 1
            r = s.check()
            if r == z3.unsat:
                res = "proved"
                self.backends["z3"] = self.backends.get("z3", 0) + 1
                break
        self.time += time.time() - t
        self.cache[key] = res if res == "proved" else (timeout, len(seeds))
        _keep.append(goal)
        _keep.extend(hyps)
        _keep.extend(extra)
        return res


# Results about terms, kept (with the terms, so that their ids stay theirs)
# while one contract is verified.
_memo_occurs, _memo_ite, _memo_pats, _held = {}, {}, {}, []


def forget():
    """Drop what is remembered about terms."""
    for m in (_memo_occurs, _memo_ite, _memo_pats):
        m.clear()
    _held.clear()


def occurs(v, e, _c=None):
    """Does constant v occur in expression e?"""
    if _c is None:
        _c = _memo_occurs.get(v.get_id())
        if _c is None:
            _c = _memo_occurs[v.get_id()] = {}
            _held.append(v)
        if e.get_id() not in _c:
            _held.append(e)
    i = e.get_id()
    if i in _c:
        return _c[i]
    if e.get_id() == v.get_id():
        r = True
    elif z3.is_quantifier(e):
        r = occurs(v, e.body(), _c)
    else:
        r = any(occurs(v, c, _c) for c in e.children())
    _c[i] = r
    return r


NOPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT,
         z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER}


def has_ite(t):
    """Does t contain something that may not occur in an E-matching pattern?"""
    i = t.get_id()
    r = _memo_ite.get(i)
    if r is None:
        if z3.is_app(t):
            r = t.decl().kind() in NOPAT or any(has_ite(c) for c in t.children())
        else:
            r = z3.is_quantifier(t)
        _memo_ite[i] = r
        _held.append(t)
    return r


def patterns_for(vs, e):
    """Candidate E-matching patterns for the bound constants vs in e: apps of
    uninterpreted functions that have a bound constant as direct argument and
    contain no arithmetic on it."""
    vids = {v.get_id() for v in vs}
    found = []
    seen = set()
    cleaned = {}

    def clean(t):
        r = cleaned.get(t.get_id())
        if r is None:
            r = cleaned[t.get_id()] = clean_(t)
        return r

    def clean_(t):
        # no interpreted arithmetic / ite above a bound var inside t
        if t.get_id() in vids:
            return True
        if not z3.is_app(t):
            return False
        if t.num_args() == 0:
            return True
        if has_ite(t):
            return False
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED and not any(
                k == t.decl().kind() for k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR)):
            if any(occurs(v, t) for v in vs):
                return False
            return True
        return all(clean(c) for c in t.children())

    def vars_in(t):
        return frozenset(v.get_id() for v in vs if occurs(v, t))

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            # variables bound inside must not appear in the pattern
            return
        if z3.is_app(t) and t.num_args() > 0:
            for c in t.children():
                walk(c)
            if (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() != L.B or
                    (t.decl().kind() == z3.Z3_OP_UNINTERPRETED)) and \
                    any(c.get_id() in vids for c in t.children()) and clean(t):
                found.append((t, vars_in(t)))
    walk(e)
    allv = frozenset(vids)
    full = [t for t, s in found if s == allv]
    # prefer non-boolean sequence accesses / function symbols
    full.sort(key=lambda t: (t.sort() == L.B, len(t.sexpr())))
    if full:
        return full[:6]
    if len(vs) > 1:
        # multipattern
        pats = []
        cov = frozenset()
        for t, s in sorted(found, key=lambda p: (-len(p[1]), len(p[0].sexpr()))):
            if not s <= cov:
                pats.append(t)
                cov |= s
            if cov == allv:
                return [tuple(pats)]
    return []


def Forall(vs, body, pats=None):
    if z3.is_true(body):
        return TRUE
    if pats is None:
        key = (tuple(v.get_id() for v in vs), body.get_id())
        pats = _memo_pats.get(key)
        if pats is None:
            pats = _memo_pats[key] = patterns_for(vs, body)
            _held.append((vs, body))
    ps = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    try:
        return z3.ForAll(vs, body, patterns=ps)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
