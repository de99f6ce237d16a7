"""Canonical names of the sequences and states that loops define.

A map with elements e(k) and a recurrence with step U(F(k), k) are functions of
the loop-independent parts of e (or of the initial state and U).  Naming them by
their shape (a template) applied to those parts gives code and specification
loops of the same shape the same symbol, so their equality is a congruence.
Loops of different shapes are related by induction (lemmas.py) instead.
"""
import z3
from . import logic as L
from .ctx import occurs, has_ite, Forall

IDS = {}          # template text -> number


def template(ts, keep, hole):
    """(text, parameters): the terms ts with their maximal conditional-free
    subterms free of the constants in `keep` abstracted; `hole` maps term ids to
    fixed placeholders."""
    params, pid, memo = [], {}, {}

    def free(x):
        return not any(occurs(v, x) for v in keep)

    def walk(x):
        i = x.get_id()
        if i in hole:
            return hole[i]
        if i in memo:
            return memo[i]
        if z3.is_quantifier(x):
            r = x.sexpr()
        elif z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x):
            r = x.sexpr()
        elif free(x) and (x.num_args() == 0 or not has_ite(x)):
            if i not in pid:
                pid[i] = len(params)
                params.append(x)
            r = f"#{pid[i]}:{x.sort()}"
        else:
            d = x.decl()
            r = "(" + d.name() + ":" + str(d.range()) + " " + " ".join(walk(c) for c in x.children()) + ")"
        memo[i] = r
        return r
    txt = " | ".join(walk(t) for t in ts)
    return txt, params


def norm(c, t, memo=None):
    """Replace the symbols of already named loops by their canonical terms."""
    if memo is None:
        memo = {}
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = t
    if z3.is_app(t) and t.num_args() + (t.decl().name() in c.canon):
        ch = [norm(c, x, memo) for x in t.children()]
        e = c.canon.get(t.decl().name())
        if e is not None:
            ps, body = e
            r = z3.substitute(body, *zip(ps, ch)) if ps else body
        elif any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    c.keep.append(r)
    memo[i] = r
    return r


def fn(prefix, txt, params, *sorts):
    key = (prefix, txt, tuple(str(p.sort()) for p in params), tuple(str(s) for s in sorts))
    n = IDS.setdefault(key, len(IDS))
    return z3.Function(f"{prefix}!{n}", *[p.sort() for p in params], *sorts)


def strip_max(n):
    """x for max(0, x): the length of a canonical map is max(0, parameter)."""
    if z3.is_app_of(n, z3.Z3_OP_ITE):
        cond, a, x = n.children()
        if z3.is_int_value(a) and a.as_long() == 0 and z3.is_true(z3.simplify(cond == (x <= 0))):
            return x
    return n


def map_term(c, k, n, e):
    """The canonical name of the sequence [e(k) for k < n], or None."""
    e2 = norm(c, e)
    kk = z3.Int("K!")
    n = strip_max(n)
    txt, ps = template([norm(c, n), z3.substitute(e2, (k, kk))], [kk], {kk.get_id(): "K"})
    if len(ps) > 40:
        return None
    return fn("cmap", txt, ps, L.VSeq)(*ps)


def of_loops(c, recs):
    """recs: [(F, k, init, U)] of one loop.  Names those whose step depends on
    no unnamed state but their own."""
    left = list(recs)
    gens = list(c.generics)
    own = [F.decl.name() for F, k, init, U in recs]
    while True:
        done = []
        for r in left:
            F, k, init, U = r
            Fk = F(k)
            others = [x[0](x[1]) for x in left if x is not r]
            # the accumulator is a constant while normalising
            acc = z3.Const("ACC!", Fk.sort())
            kk = z3.Int("K!")
            u = norm(c, z3.substitute(z3.substitute(U, (Fk, acc)), (k, kk)))
            if any(occurs_decl(nm, u) for nm in own if nm not in c.canon):
                continue
            txt, ps = template([norm(c, init), u], [acc, kk], {acc.get_id(): "ACC", kk.get_id(): "K"})
            if len(ps) > 40:
                continue
            R = fn("crec", txt, ps, z3.IntSort(), Fk.sort())
            x = z3.Int("kk!%d" % len(gens))
            lhs, rhs = F(x), R(*ps, x)
            c.canon[F.decl.name()] = (list(F.outer) + [x], rhs)
            c.define(z3.ForAll([x], z3.Implies(x >= 0, lhs == rhs), patterns=[lhs]))
            done.append(r)
        left = [r for r in left if r not in done]
        if not done or not left:
            return


def occurs_decl(name, t, seen=None):
    if seen is None:
        seen = set()
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return occurs_decl(name, t.body(), seen)
    return z3.is_app(t) and (t.decl().name() == name or any(occurs_decl(name, x, seen) for x in t.children()))
