"""Loop summarisation: every loop over a symbolic range is reasoned about for
a generic iteration k (no unrolling, no bound).

Carried locations become state functions F(k); closed forms (induction
variables, maps, repetition) are inferred and justified by the one-step
recurrence; everything else keeps its recurrence, which the prover uses for
relational induction between code and specification loops (see lemmas.py).
"""
import z3
from . import logic as L
from . import canon
from .logic import Val, SQ, ST
from .values import *
from .ctx import Forall, occurs, patterns_for, TRUE, FALSE, has_quant
from . import engine as E
from .effects import StateV


class Carried:
    __slots__ = ("loc", "kind", "init", "F", "sort", "closed", "tags", "mutable", "live", "initv", "cls")

    def __init__(self, loc, kind, sort, initv):
        self.loc, self.kind, self.sort, self.initv = loc, kind, sort, initv
        self.F = None
        self.closed = None
        self.tags = None
        self.mutable = True
        self.cls = list


def kind_of(I, v):
    if isinstance(v, bool) or (isinstance(v, Sym) and v.kind == "bool"):
        return "bool"
    if isinstance(v, int) or (isinstance(v, Sym) and v.kind == "int"):
        return "int"
    if isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str"):
        return "str"
    if isinstance(v, PList):
        return "pylist"
    if isinstance(v, StateV):
        return "state"
    return "val"


SORTS = {"state": L.St, "bool": L.B, "int": L.I, "str": L.Str, "pylist": L.VSeq, "plist": L.VSeq, "val": Val}


def term_of(I, kind, v):
    if kind == "bool":
        return I.bool_term(v)
    if kind == "int":
        return I.int_term(v)
    if kind == "str":
        return I.str_term(v)
    if kind == "state":
        return v.t
    if kind == "pylist":
        return I.seq_of(v)
    if kind == "plist":
        for x in (v.items or ()):
            I.freeze(x)
        return I.seq_of(v)
    return I.boxf(v)


def elem_tags(I, v):
    """Element tags of a PList, or None if unknown."""
    if isinstance(v, PList):
        if v.items is not None:
            r = frozenset()
            for x in v.items:
                r |= I.tags(Dyn(I.box(x)))
            return r
        return I.seq_tags(v.seq)
    return None


def _lockstep(carried, upd, k):
    """Two locations that start equal and, as long as they are equal, are
    updated alike hold the same value all along: the second is then described
    by the first."""
    open_ = [(key, cr) for key, cr in carried.items() if cr.closed is None and cr.kind in ("plist", "pylist", "int", "str", "val")]
    for i, (ka, a) in enumerate(open_):
        for kb, b in open_[i + 1:]:
            if a.sort != b.sort or a.kind != b.kind or a.init.get_id() != b.init.get_id():
                continue
            fa, fb = a.F(k), b.F(k)
            ua = z3.substitute(upd[ka], (fb, fa))
            ub = z3.substitute(upd[kb], (fb, fa))
            if ua.get_id() == ub.get_id():
                b.closed = lambda t, f=a.F: f(t)
                return True
    return False


def read_loc(loc):
    if loc[0] == "env":
        return loc[1].locals[loc[2]]
    if loc[0] == "fld":
        return loc[1].fields[loc[2]]
    return loc[1]


def write_loc(I, loc, cr, value_term, note=True):
    """Install the state `value_term` in the location."""
    c = I.c
    kind = cr.kind
    if kind == "plist":
        o = loc[1]
        oi, os = o.items, o.seq
        o.items, o.seq = None, value_term

        def u():
            o.items, o.seq = oi, os
        c.undo(u)
        set_stags(I, value_term, cr.tags)
    else:
        if kind == "int":
            v = I.mkint(value_term)
        elif kind == "bool":
            v = I.mkbool(value_term)
        elif kind == "str":
            v = I.mkstr(value_term)
        elif kind == "state":
            v = StateV(value_term)
        elif kind == "pylist":
            v = I.new_plist(seq=value_term, cls=cr.cls)
            v.frozen = not cr.mutable
            set_stags(I, value_term, cr.tags)
        else:
            d = Dyn(value_term)
            if cr.tags is not None and L.cons_tag(value_term) is None:
                I.set_tags(d, cr.tags)
            v = I.unbox(d)
        if loc[0] == "env":
            c.setitem(loc[1].locals, loc[2], v)
        else:
            c.setitem(loc[1].fields, loc[2], v)
    if note:
        I.note(loc)


def set_stags(I, term, tags):
    if tags is not None:
        I.c.keep.append(term)
        I.c.setitem(I.c.memo, ("stags", term.get_id()), tags)


def loc_key(loc):
    return (loc[0], id(loc[1]), loc[2] if len(loc) > 2 else None)


def run_symbolic_loop(I, view, body, orelse, names, is_while):
    c = I.c
    n = view.n
    c.counter += 1
    k = z3.Int(f"k!{c.counter}")
    start_serial = c.serial
    live_frames = {id(f) for f in I.frames}
    for f in list(I.frames):
        p = f.parent
        while p is not None:
            live_frames.add(id(p))
            p = p.parent
    prebound = {}
    for f in I.frames:
        prebound[id(f)] = {nm for nm, v in f.locals.items() if v is not E.POISON}
        p = f.parent
        while p is not None:
            prebound[id(p)] = {nm for nm, v in p.locals.items() if v is not E.POISON}
            p = p.parent
    temps = {}

    def preexisting(loc):
        if loc[0] == "env":
            if id(loc[1]) not in live_frames:
                return False
            if loc[2] not in prebound[id(loc[1])]:
                temps[loc_key(loc)] = loc
                return False
            if names and loc[1] is names[0] and loc[2] in names[1]:
                temps[loc_key(loc)] = loc     # loop target: rebound each time
                return False
            return True
        if loc[0] == "dict":
            return loc[1].serial <= start_serial
        return loc[1].serial <= start_serial

    carried = {}
    outer_writes = I.writes

    def explore_body():
        m = c.mark()
        c.generics.append(k)
        try:
            c.assume(k >= 0)
            if n is not None:
                c.assume(k < n)
            for cr in carried.values():
                t = cr.closed(k) if cr.closed else cr.F(k)
                write_loc(I, cr.loc, cr, t, note=False)
            if names:
                for nm in names[1]:
                    if nm in names[0].locals:
                        c.setitem(names[0].locals, nm, E.POISON)
            for tl in temps.values():
                if tl[2] in tl[1].locals:
                    c.setitem(tl[1].locals, tl[2], E.POISON)

            def run():
                I.writes = {}
                known = set(c.recs)
                kind, val = "fall", None
                try:
                    body(view.elem(k))
                except E.ContinueEx:
                    pass
                except E.BreakEx:
                    kind = "break"
                except E.NormalExit:
                    kind = "done"
                except E.ReturnEx as r:
                    kind = "return"
                except Diverges:
                    kind = "never ends"
                except PyRaise as p:
                    kind = "raise"
                ends = {}
                if kind == "fall":
                    for key, loc in I.writes.items():
                        if not preexisting(loc):
                            continue
                        if loc[0] == "dict":
                            raise Unsupported("dict updated in a loop")
                        v = read_loc(loc)
                        kd = "plist" if loc[0] == "plist" else kind_of(I, v)
                        ck = carried[key].kind if key in carried else kd
                        if ck != kd:
                            ck = "val"
                        tg = elem_tags(I, v) if ck in ("plist", "pylist") else (
                            I.tags(Dyn(I.box(v))) if ck == "val" else None)
                        mut = isinstance(v, PList) and not v.frozen and (
                            loc[0] == "plist" or v.serial > start_serial)
                        ends[key] = (loc, kd, term_of(I, ck, v), tg, mut,
                                     v.cls if isinstance(v, PList) else None)
                # recurrences of the nested loops of this iteration
                inner.extend((nm, r) for nm, r in c.recs.items() if nm not in known)
                return (kind, ends)
            return c.explore(run)
        finally:
            c.generics.pop()
            c.rollback(m)
            I.writes = outer_writes

    nob = len(I.obls)
    for rnd in range(14):
        del I.obls[nob:]
        inner = []
        paths = explore_body()
        falls = [p for p in paths if p[2][0] == "fall"]
        exits = [p for p in paths if p[2][0] != "fall"]
        if not falls and not carried:
            # no iteration completes: at most one is started
            if n is not None and not c.branch(n > 0):
                orelse()
                return
            try:
                body(view.elem(z3.IntVal(0)))
                raise Infeasible()
            except E.ContinueEx:
                raise Infeasible()
            except E.BreakEx:
                return
            except E.NormalExit:
                pass
            orelse()
            return
        changed = False
        for pcs, defs, (kd_, ends) in falls:
            for key, (loc, kd, term, tg, mut, cls) in ends.items():
                cr = carried.get(key)
                if cr is None:
                    iv = read_loc(loc)
                    ik = "plist" if loc[0] == "plist" else kind_of(I, iv)
                    kind = kd if kd == ik else "val"
                    cr = Carried(loc, kind, SORTS[kind], iv)
                    _set_init(I, cr)
                    carried[key] = cr
                    changed = True
                elif cr.kind != kd and cr.kind != "val":
                    cr.kind = "val"
                    cr.sort = Val
                    cr.closed = None
                    _set_init(I, cr)
                    changed = True
                # element / value tag fixpoint
                if cr.kind in ("plist", "pylist", "val"):
                    new = None if (cr.tags is None or tg is None) else cr.tags | tg
                    if cr.kind == "val" and tg is None:
                        new = cr.tags
                    if new != cr.tags:
                        cr.tags = new
                        changed = True
                if not mut and cr.kind == "pylist" and cr.mutable:
                    cr.mutable = False
                    changed = True
                if cls is not None:
                    cr.cls = cls
        if any(cr.kind == "val" and isinstance(cr.initv, (int, Sym)) for cr in carried.values()):
            # an integer made a number of unknown type by a local that is
            # one: decide that one first, outside the loop
            fr = I.frames[-1]
            loose = [v for nm, v in fr.locals.items() if isinstance(v, Dyn) and I.tags(v) == L.NUMTAGS
                     and loc_key(("env", fr, nm)) not in carried]
            if loose:
                I.resolve(loose[0])
                return run_symbolic_loop(I, view, body, orelse, names, is_while)
        if changed:
            continue
        # closed forms for scalars that feed other terms
        upd = _updates(I, carried, falls, k)
        redo = False
        for key, cr in carried.items():
            if cr.closed is None:
                cf = _closed_form(I, cr, upd[key], k, carried)
                if cf is not None:
                    cr.closed = cf
                    redo = True
        if not redo and _lockstep(carried, upd, k):
            redo = True
        if not redo:
            break
    else:
        raise Unsupported("loop analysis did not stabilise")

    # ---- definitional facts of the generic iteration ----------------------
    rng = z3.And(0 <= k, k < n) if n is not None else (0 <= k)
    for pcs, defs, _ in paths:
        I.generalise(k, rng, pcs, defs)

    for nm, r in inner:
        if nm not in c.recs:
            c.setitem(c.recs, nm, r)

    exit_conds = [z3.And(*p[0]) if p[0] else TRUE for p in exits]
    NE = z3.Not(z3.Or(*exit_conds)) if exit_conds else TRUE
    fall_conds = [z3.And(*p[0]) if p[0] else TRUE for p in falls]
    if exit_conds and falls and len(falls) < len(exits):
        NE = z3.Or(*fall_conds) if len(fall_conds) > 1 else fall_conds[0]

    canon.of_loops(c, [(cr.F, k, cr.init, upd[key]) for key, cr in carried.items() if not cr.closed])
    finals = {}
    for key, cr in carried.items():
        finals[key] = _describe_state(I, cr, upd[key], k, n, bool(exits), rng, falls)

    # ---- ways the loop can end ------------------------------------------------
    diverges = False
    if n is None:
        if not exits:
            _infinite(I, carried, upd, k, finals)
            # not a generator: the loop never ends
            raise Diverges()
        if not I.may_diverge:
            _termination(I, carried, upd, k, falls, finals)
        options = ["exit"]
    elif exits:
        options = ["complete", "exit"]
    else:
        options = ["complete"]
    which = options[c.nondet(len(options))] if len(options) > 1 else options[0]

    def install(kt, final):
        for key, cr in carried.items():
            st = finals[key]
            if final:
                t = st["final"]
            else:
                t = cr.closed(kt) if cr.closed else st["at"](kt)
            write_loc(I, cr.loc, cr, t)

    if which == "complete":
        m = z3.Int("m!%d" % len(c.generics))
        ne = z3.substitute(NE, (k, m))
        if not z3.is_true(ne):
            c.assume(Forall([m], z3.Implies(z3.And(0 <= m, m < n), ne)))
            _instances(c, m, ne, n)
        install(n, True)
        _step_unroll(I, carried, upd, k, n)
        _poison(I, temps, names)
        orelse()
        return
    ke = c.fresh("ke", L.I)
    c.assume(ke >= 0)
    if n is not None:
        c.assume(ke < n)
    m = z3.Int("m!%d" % len(c.generics))
    ne = z3.substitute(NE, (k, m))
    if not z3.is_true(ne):
        c.assume(Forall([m], z3.Implies(z3.And(0 <= m, m < ke), ne)))
        _instances(c, m, ne, ke)
        if not c.generics:
            for cr in carried.values():
                r = c.recs.get(cr.F.decl.name())
                if r is not None and not cr.closed:
                    c.setitem(c.recs, r["name"], dict(r, exit=ke, falls_if=z3.substitute(NE, (k, r["k"]))))
            if n is None:
                if I.spec_mode:
                    ke = _fuse(I, carried, finals, k, ke, NE)
                else:
                    c.setitem(c.memo, "code loop", ke)
    install(ke, False)
    for cr in carried.values():
        # the state reached by falling through ke times
        pass
    _step_unroll(I, carried, upd, k, ke)
    _poison(I, temps, names)
    normal = False
    try:
        body(view.elem(ke))
        raise Infeasible()
    except E.ContinueEx:
        raise Infeasible()
    except E.BreakEx:
        return
    except E.NormalExit:
        normal = True
    if normal:
        orelse()


def _instances(c, m, ne, n):
    """Ground instances of a 'no exit before n' fact, for the first and the
    last iteration (arithmetic facts have no E-matching trigger)."""
    if has_quant(ne):
        return
    for j in (n - 1, z3.IntVal(0)):
        c.assume(z3.Implies(n >= 1, z3.substitute(ne, (m, j))))


def _poison(I, temps, names):
    for tl in temps.values():
        if tl[2] in tl[1].locals:
            I.c.setitem(tl[1].locals, tl[2], E.POISON)


def _set_init(I, cr):
    v = cr.initv
    cr.init = term_of(I, cr.kind, v)
    if cr.kind in ("plist", "pylist"):
        cr.tags = elem_tags(I, v)
        cr.mutable = isinstance(v, PList) and not v.frozen
        cr.cls = v.cls
    elif cr.kind == "val":
        cr.tags = I.tags(Dyn(cr.init))
    cr.F = I.c.fresh_fn("st", L.I, cr.sort)


def _updates(I, carried, falls, k):
    """One-step update term of each carried location."""
    upd = {}
    for key, cr in carried.items():
        same = cr.closed(k) if cr.closed else cr.F(k)
        opts = []
        for pcs, defs, (_, ends) in falls:
            t = ends[key][2] if key in ends else same
            if t.sort() != cr.sort:
                if cr.sort == Val:
                    t = {L.I: Val.PInt, L.B: Val.PBool, L.Str: Val.PStr, L.VSeq: Val.PList}[t.sort()](t)
                else:
                    raise Unsupported("loop state changes type")
            opts.append((pcs, defs, t))
        upd[key] = I.merge(opts) if opts else same
    return upd


def _closed_form(I, cr, U, k, carried):
    Fk = cr.F(k)
    Fs = [x.F(k) for x in carried.values() if x.closed is None]
    free = lambda t: not occurs(k, t)
    if cr.sort == L.I:
        d = z3.simplify(U - Fk)
        if free(d):
            init = cr.init
            if z3.is_int_value(d):
                dv = d.as_long()
                return lambda kk: z3.simplify(init + dv * kk)
            return lambda kk: z3.simplify(init + I.mul(kk, d))
        return None
    if U.get_id() == Fk.get_id():
        init = cr.init
        return lambda kk: init
    if free(U) and cr.sort in (L.Str, L.VSeq, Val, L.B):
        # constant after the first iteration
        init = cr.init
        return lambda kk: (init if z3.is_int_value(kk) and kk.as_long() == 0 else
                           z3.If(kk == 0, init, U))
    if cr.sort in (L.Str, L.VSeq):
        th = L.theory_of(cr.sort)
        if z3.is_app(U) and U.decl().name() == th.name + "_cat":
            a, b = U.arg(0), U.arg(1)
            init = cr.init
            if a.get_id() == Fk.get_id() and free(b):
                return lambda kk: I.cat(init, I.rep(b, kk))
            if b.get_id() == Fk.get_id() and free(a):
                return lambda kk: I.cat(I.rep(a, kk), init)
    return None


def flat_cat(th, t):
    if z3.is_app(t) and t.decl().name() == th.name + "_cat":
        return flat_cat(th, t.arg(0)) + flat_cat(th, t.arg(1))
    return [t]


def ite_append(th, U, Fk):
    """[F, unit(e)] or [unit(e), F] when every branch of the update appends
    (prepends) exactly one element."""
    if z3.is_app(U) and U.decl().kind() == z3.Z3_OP_ITE:
        cnd, a, b = U.children()
        x, y = ite_append(th, a, Fk), ite_append(th, b, Fk)
        if not x or not y:
            return None
        for i in (0, 1):
            if x[i].get_id() == Fk.get_id() and y[i].get_id() == Fk.get_id():
                u = th.unit(z3.If(cnd, x[1 - i].arg(0), y[1 - i].arg(0)))
                return [Fk, u] if i == 0 else [u, Fk]
        return None
    parts = flat_cat(th, U)
    if len(parts) != 2:
        return None
    un = lambda u: z3.is_app(u) and u.decl().name() == th.name + "_unit"
    if parts[0].get_id() == Fk.get_id() and un(parts[1]) or parts[1].get_id() == Fk.get_id() and un(parts[0]):
        return parts
    return None


def _describe_state(I, cr, U, k, n, has_exits, rng, falls):
    """Facts about the state function; returns final value and accessor."""
    c = I.c
    if cr.closed:
        # the symbol F may occur in earlier terms: keep it linked
        return {"final": cr.closed(n) if n is not None else None, "at": cr.closed, "kind": "closed"}
    Fk = cr.F(k)
    th = L.theory_of(cr.sort) if cr.sort in (L.Str, L.VSeq) else None
    F = cr.F
    c.define(F(z3.IntVal(0)) == cr.init)
    if th is not None:
        parts = flat_cat(th, U)
        if len(parts) == 1:
            parts = ite_append(th, U, Fk) or parts
        if len(parts) == 2:
            for pre in (False, True):
                s, u = (parts[1], parts[0]) if pre else (parts[0], parts[1])
                if s.get_id() == Fk.get_id() and not occurs(Fk, u) and z3.is_app(u) \
                        and u.decl().name() == th.name + "_unit":
                    e = u.arg(0)
                    return _append_one(I, cr, e, k, n, pre, has_exits, th)
    # general recurrence
    rec = {"F": F, "outer": list(F.outer), "k": k, "n": n, "init": cr.init, "U": U, "sort": cr.sort,
           "spec": I.spec_mode, "name": F.decl.name(), "falls": [p[0] for p in falls], "gen": list(c.generics)}
    c.setitem(c.recs, F.decl.name(), rec)
    auto_invariants(I, rec, falls)
    return {"final": F(n) if n is not None else None, "at": lambda kk: F(kk), "kind": "rec"}


def _append_one(I, cr, e, k, n, pre, has_exits, th):
    c = I.c
    F = cr.F
    init = cr.init
    li = I.slen(init)
    kk, x = z3.Int("kk!%d" % len(c.generics)), z3.Int("x!%d" % len(c.generics))
    sub = lambda j: z3.substitute(e, (k, j))
    # |F(k)| and its elements, for every k
    c.define(z3.ForAll([kk], z3.Implies(kk >= 0, th.len(F(kk)) == li + kk), patterns=[F(kk)]))
    if pre:
        c.define(z3.ForAll([kk, x], z3.And(
            z3.Implies(z3.And(0 <= x, x < kk), th.at(F(kk), x) == sub(kk - 1 - x)),
            z3.Implies(z3.And(kk <= x, x < kk + li), th.at(F(kk), x) == th.at(init, x - kk))),
            patterns=[th.at(F(kk), x)]))
    elif li.eq(z3.IntVal(0)):
        c.define(z3.ForAll([kk, x], z3.Implies(z3.And(0 <= x, x < kk), th.at(F(kk), x) == sub(x)),
                           patterns=[th.at(F(kk), x)]))
    else:
        c.define(z3.ForAll([kk, x], z3.And(
            z3.Implies(z3.And(0 <= x, x < li), th.at(F(kk), x) == th.at(init, x)),
            z3.Implies(z3.And(li <= x, x < li + kk), th.at(F(kk), x) == sub(x - li))),
            patterns=[th.at(F(kk), x)]))
    final = None
    if n is not None:
        if th is SQ and not pre:
            final = I.cat(init, I.named_map(k, n, e))
        elif not pre and z3.is_app(e) and e.decl().name() == "s_at" and e.arg(1).get_id() == k.get_id() \
                and z3.simplify(I.slen(e.arg(0)) - n).eq(z3.IntVal(0)):
            final = I.cat(init, e.arg(0))
        else:
            final = F(n)
            c.define(th.len(final) == li + n)

    def at(kt):
        t = F(kt)
        c.define(z3.Implies(kt >= 0, th.len(t) == li + kt))
        return t
    return {"final": final, "at": at, "kind": "append", "e": e}


def _fuse(I, carried, finals, k, ke, NE):
    """A loop of the specification that goes through the same states as the
    last loop of the code, and is left on the same condition, is left after as
    many iterations, in the same state.  By induction: the states are equal at
    the start and one iteration takes equal states to equal ones."""
    c = I.c
    if "code loop" not in c.memo:
        return ke
    kc = c.memo["code loop"]
    code = [r for r in c.recs.values() if not r["spec"] and r.get("exit") is not None and r["exit"].eq(kc)
            and r["n"] is None and not r["gen"]]
    spec = [c.recs[cr.F.decl.name()] for cr in carried.values()
            if not cr.closed and cr.F.decl.name() in c.recs]
    if not code or not spec or any(cr.closed for cr in carried.values()):
        return ke
    hyps = [f for _, f in c.log]
    P = I.prover
    kk = code[0]["k"]
    if any(not r["k"].eq(kk) for r in code):
        return ke

    def at_code(t):
        return z3.substitute(t, (k, kk))

    nec = code[0]["falls_if"]
    nes = at_code(NE)
    live = [(a, b) for a in code for b in spec if a["sort"] == b["sort"] and
            (a["sort"] != L.St or P.prove(hyps, a["init"] == b["init"], timeout=2000) == "proved")]
    live = [(a, b) for a, b in live if a["sort"] == L.St or
            P.prove(hyps, I.val_eq2(a["init"], b["init"]), timeout=2000) == "proved"]
    while live:
        ih = [kk >= 0, kk <= kc, at_code(ke) >= kk] + [a["F"](kk) == b["F"](kk) for a, b in live]
        if P.prove(hyps + ih, nec == nes, timeout=4000, seeds=(0, 7)) != "proved":
            return ke
        keep = [(a, b) for a, b in live
                if P.prove(hyps + ih + [nec, nes], I.val_eq2(a["U"], at_code(b["U"])), timeout=6000, seeds=(0, 7)) == "proved"]
        if len(keep) == len(live):
            break
        live = keep
    if len({b["name"] for a, b in live}) < len(spec):
        return ke
    c.define(ke == kc)
    for a, b in live:
        c.define(a["F"](kc) == b["F"](kc))
        c.define(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk <= kc), a["F"](kk) == b["F"](kk)),
                           patterns=[a["F"](kk), b["F"](kk)]))
        finals[next(key for key, cr in carried.items() if cr.F.decl.name() == b["name"])]["at"] = a["F"]
    return kc


def _step_unroll(I, carried, upd, k, N):
    """F(N) = U(N-1) when N >= 1, for recurrences without closed form."""
    c = I.c
    for key, cr in carried.items():
        if cr.closed or cr.F.decl.name() not in c.recs:
            continue
        f = z3.substitute(upd[key], (k, N - 1))
        if not z3.is_int_value(N) or N.as_long() >= 1:
            c.define(z3.Implies(N >= 1, cr.F(N) == f))
        _grown(I, cr, upd[key], k, N)


def _grows(th, U, Fk):
    """The condition under which the update adds elements at the end (it
    leaves the sequence alone otherwise), or None."""
    if z3.is_app(U) and U.decl().kind() == z3.Z3_OP_ITE:
        cnd, a, b = U.children()
        x, y = _grows(th, a, Fk), _grows(th, b, Fk)
        if x is None or y is None or occurs(Fk, cnd):
            return None
        return z3.simplify(z3.If(cnd, x, y))
    if U.get_id() == Fk.get_id():
        return FALSE
    parts = flat_cat(th, U)
    if parts[0].get_id() == Fk.get_id() and any(z3.is_app(u) and u.decl().name() == th.name + "_unit"
                                                for u in parts[1:]):
        return TRUE
    return None


def _grown(I, cr, U, k, N):
    """A sequence collected in N iterations is longer than at the start just
    when some iteration added to it (by induction over the iterations)."""
    if cr.sort not in (L.Str, L.VSeq):
        return
    th = L.theory_of(cr.sort)
    P = _grows(th, U, cr.F(k))
    if P is None or z3.is_true(P) or z3.is_false(P) or has_quant(P):
        return
    c = I.c
    m = z3.Int("mg!%d" % len(c.generics))
    pm = z3.substitute(P, (k, m))
    li, ln = I.slen(cr.init), th.len(cr.F(N))
    c.define(Forall([m], z3.Implies(z3.And(0 <= m, m < N, pm), ln > li)))
    w = c.fresh("added", L.I)
    c.define(z3.Implies(ln > li, z3.And(0 <= w, w < N, z3.substitute(P, (k, w)))))
    c.define(ln >= li)


def _infinite(I, carried, upd, k, finals):
    """An endless loop in a generator yields an infinite sequence."""
    fr = I.frames[-1]
    if fr.yields is None:
        return
    key = loc_key(("plist", fr.yields))
    st = finals.get(key)
    cr = carried.get(key)
    if st is None or st.get("kind") != "append" or not cr.init.eq(SQ.empty):
        return
    e = st["e"]
    raise E.InfiniteGen(GenObj(n=None, elem=lambda kk: I.unbox(Dyn(z3.substitute(e, (k, kk))))))


def _next(I, t, carried, upd, k):
    """Term t one iteration later."""
    t1 = z3.substitute(t, (k, k + 1))
    subs = []
    for key, cr in carried.items():
        if not cr.closed:
            subs.append((z3.substitute(cr.F(k), (k, k + 1)), upd[key]))
    return z3.substitute(t1, *subs) if subs else t1


def _termination(I, carried, upd, k, falls, finals):
    c = I.c
    cands = []

    def atoms(f, pos=True):
        if z3.is_not(f):
            yield from atoms(f.arg(0), not pos)
        elif z3.is_and(f) or z3.is_or(f):
            for x in f.children():
                yield from atoms(x, pos)
        else:
            yield f, pos
    seen = set()
    for pcs, _, _ in falls:
        for f in pcs:
            for a, pos in atoms(f):
                if z3.is_app(a) and a.num_args() == 2 and a.arg(0).sort() == L.I:
                    x, y = a.arg(0), a.arg(1)
                    for m in (y - x, x - y):
                        m = z3.simplify(m)
                        if occurs(k, m) and m.get_id() not in seen:
                            seen.add(m.get_id())
                            cands.append(m)
                            c.keep.append(m)
    for cr in carried.values():
        t = cr.closed(k) if cr.closed else cr.F(k)
        if cr.sort == L.I:
            cands += [t, z3.If(t >= 0, t, -t)]
        elif cr.sort in (L.Str, L.VSeq):
            cands.append(I.slen(t))
    hyps = [f for _, f in c.log]
    for mu in cands:
        nx = _next(I, mu, carried, upd, k)
        ok = True
        for pcs, defs, _ in falls:
            g = z3.And(mu >= -1, nx < mu)
            # bounded below (mu >= -1 while running) and decreasing
            if I.prover.prove(hyps + [k >= 0] + pcs + defs, g, timeout=1500) != "proved":
                ok = False
                break
        if ok:
            I.stats["termination"] = I.stats.get("termination", 0) + 1
            I.proved_inline("termination: variant decreases", hyps)
            return
    I.obligation("termination: no decreasing variant found for the loop", FALSE, soft=True)


def auto_invariants(I, rec, falls):
    """Houdini over simple templates for recurrences without closed form."""
    c = I.c
    F, k, U = rec["F"], rec["k"], rec["U"]
    cands = []
    if rec["sort"] == L.I:
        i0 = rec["init"]
        cands = [lambda t: t >= 0, lambda t: t >= 1, lambda t: t >= i0, lambda t: t <= i0, lambda t: t <= 0]
    elif rec["sort"] in (L.Str, L.VSeq):
        th = L.theory_of(rec["sort"])
        li = I.slen(rec["init"])
        cands = [lambda t, th=th: th.len(t) >= li, lambda t, th=th: th.len(t) <= li,
                 lambda t, th=th: th.len(t) >= 1]
    if not cands:
        return
    hyps = [f for _, f in c.log]
    live = [q for q in cands if I.prover.prove(hyps, q(rec["init"]), timeout=800) == "proved"]
    if rec["sort"] in (L.Str, L.VSeq) and not falls:
        live = []
    while live:
        keep = []
        Fk = F(k)
        asm = [q(Fk) for q in live]
        rng = [k >= 0] + ([k < rec["n"]] if rec["n"] is not None else [])
        for q in live:
            ok = all(I.prover.prove(hyps + rng + asm + pcs + defs, q(ends_u(I, rec, ends, U)), timeout=800) == "proved"
                     for pcs, defs, (_, ends) in falls)
            if ok:
                keep.append(q)
        if len(keep) == len(live):
            break
        live = keep
    kk = z3.Int("kk!%d" % len(c.generics))
    for q in live:
        c.define(z3.ForAll([kk], z3.Implies(kk >= 0 if rec["n"] is None else z3.And(kk >= 0, kk <= rec["n"]), q(F(kk))),
                           patterns=[F(kk)]))


def ends_u(I, rec, ends, U):
    return U
