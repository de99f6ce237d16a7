"""Effects: calls that read or change the interpreter's state.

In a contract with `effects=(...)` the named ProgramState methods are seen
through one abstract contract each: the result and the next state are
functions of the current state and of the (frozen) arguments,

    result = ret!m(state, args)      state' = next!m(state, args)

and nothing else is known about them.  Since this has to hold for every such
pair of functions, the code and the specification can only be shown equal if
they perform the same calls with the same arguments in the same order (the
states being compared at the end).  Whether a call raises is part of the same
choice; it is only made explicit where a handler or finally block is active.
"""
import builtins
import types
import z3
from . import logic as L
from .logic import Val, SQ, ST, St
from .values import *
from .ctx import Forall
from . import tokstream


class StateV:
    """The abstract interpreter state."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Ghost:
    pass


PIP = L.PIPTAGS
# method -> tags of the result
RESULT = {
    "getRval": PIP, "evaluate": PIP | {"lval"}, "assign": {"none"}, "executeStatement": {"none"} | PIP,
    "functionCall": PIP, "openScope": {"none"}, "closeScope": {"none"}, "updateHistoryVars": {"none"},
    "ASSIGN": PIP | {"lval"}, "assignRegexVars": {"pylist"}, "PRINT": PIP | {"lval"},
    "MAPMETA": PIP, "FOLDMETA": PIP, "SCANMETA": PIP, "op": PIP | {"lval"}, "cmd": {"none"}, "BLOCK": {"block"},
    "WIPEGLOBALS": {"none"}, "getq": {"nil", "scalar"}, "getr": {"scalar"}, "setr": {"none"},
    "isDefined": {"bool"}, "MAP": PIP, "FILTER": PIP,
}
# values on which the call does nothing and returns its argument
IDENTITY = {"getRval": PIP | {"oper"}, "evaluate": PIP | {"lval"}}
# attributes of the interpreter that the call reads, where they are specified
READS = {"WIPEGLOBALS": ("args", "mainFunction")}
EXC = {"op": ("TypeError", "FatalError")}


def begin(w, I):
    g = Obj(Ghost, {"st": StateV(z3.Const("state0", St))}, 0)
    I.ghost = g
    I.try_stack = []


def end_side(w, I, side):
    t = I.ghost.fields["st"].t
    I.c.setitem(I.ghost.fields, "st", StateV(z3.Const("state0", St)))
    I.c.setattr(I, "try_stack", [])
    return t


def state_goals(w, I, a, b):
    if a.get_id() == b.get_id():
        return []
    return [("effects (calls made, their arguments and their order)", state_eq(I, a, b))]


def state_eq(I, a, b):
    """Equality of two states; or, where both are the same chain of calls,
    equality of the calls' arguments (which may be equal by extensionality
    only)."""
    whole = a == b
    parts = []
    while a.get_id() != b.get_id():
        if not (z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() > 1
                and a.decl().name().startswith("next!")):
            if z3.is_const(a) or z3.is_const(b) or not parts:
                return whole
            parts.append(a == b)
            break
        for x, y in list(zip(a.children(), b.children()))[1:]:
            if x.get_id() != y.get_id():
                parts.append(I.val_eq(x, y) if x.sort() == Val else x == y)
        a, b = a.arg(0), b.arg(0)
    return z3.Or(whole, z3.And(*parts)) if parts else whole


def uf(name, *sorts):
    from .world import uf as u
    return u(name, *sorts)


def call(I, name, args):
    """An effectful call of method `name` (self not among args)."""
    c = I.c
    g = I.ghost
    args = [I.unbox(a) if not hasattr(a, "gen") else a for a in args]
    same = None
    if name in IDENTITY and len(args) == 1 and not hasattr(args[0], "gen"):
        x = args[0]
        idt = IDENTITY[name]
        if isinstance(x, Dyn):
            tg = I.tags(x)
            if tg <= idt:
                return x
            if tg & idt:
                same = z3.Or(*[L.is_tag(x.t, q) for q in sorted(tg & idt)])
        elif isinstance(x, Obj):
            (tg,) = I.tags(Dyn(I.box(x)))
            if tg in idt:
                return x
        elif I.class_of(x) is I.w.modules["operators"].Operator and "oper" in idt:
            return x
    st = g.fields["st"].t
    reread = None
    if name == "getRval" and len(args) == 1:
        # reading an lvalue again, nothing but such reads having happened in
        # between, gives the same value and has no effect (assumed contract)
        x = args[0]
        if isinstance(x, Dyn) and I.tags(x) == {"lval"}:
            reread = ("t", x.t.get_id())
            c.keep.append(x.t)
        elif isinstance(x, Obj) and x.cls.__name__ == "Lval":
            reread = ("o", id(x))
            c.keep.append(x)
        sid, known = g.fields.get("reads", (None, {}))
        if sid != st.get_id():
            known = {}
        if reread in known:
            return known[reread]
    if any(hasattr(a, "gen") for a in args):
        s = SQ.empty
        for a in args:
            s = I.cat(s, I.seq_of(a.gen) if hasattr(a, "gen") else SQ.unit(I.boxf(a)))
        bx = [Val.PList(s)]
        nm = name + "!star"
    else:
        bx = [I.boxf(a) for a in args]
        nm = f"{name}!{len(bx)}"
    sorts = [St] + [Val] * len(bx)
    nxt = uf("next!" + nm, *sorts, St)(st, *bx)
    # exceptions
    from . import host
    excs = [getattr(I.w.modules["errors"], e, None) or getattr(builtins, e)
            for e in (host.EXC if "ProgramState" in I.target.effects or name in host.LIBRARY else EXC).get(name, ("FatalError",))]
    if I.target.attrs.get("ok." + name):
        excs = []           # the case in which it goes well
    key = ("effexc", nm, st.get_id(), tuple(b.get_id() for b in bx))
    which = c.memo.get(key)
    if which is None:
        relevant = [e for e in excs if any(fin or issubclass(e, cl) for cl, fin in I.try_stack)]
        if relevant or I.target.effects_raise:
            f = uf("exc!" + nm, *sorts, L.I)(st, *bx)
            n = len(excs)
            which = c.choose([f == j + 1 for j in range(n)] + [z3.And(*[f != j + 1 for j in range(n)])])
            c.keep.append((st, bx))
            c.setitem(c.memo, key, which)
    c.setitem(g.fields, "st", StateV(nxt))
    I.note(("fld", g, "st"))
    if which is not None and which < len(excs):
        raise PyRaise(ExcObj(excs[which]))
    if I.target.attrs.get("stop." + name):
        raise PyRaise(ExcObj(SystemExit))
    want = I.target.effect_result.get(name) or RESULT.get(name, PIP | {"lval"})
    if name == "evaluate" and len(args) == 1 and on_values(I, args[0]):
        want = PIP          # an operator applied to values gives a value (assumed)
    if want == {"none"}:
        return None
    t = uf("ret!" + nm, *sorts, Val)(st, *bx)
    if same is not None:
        c.define(z3.Implies(same, z3.And(t == bx[0], nxt == st)))
    c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(want)]))
    if want <= L.PIPTAGS:
        c.define(L.pip(t))
    elif want & L.PIPTAGS:
        c.define(z3.Implies(z3.Or(*[L.is_tag(t, x) for x in sorted(want & L.PIPTAGS)]), L.pip(t)))
    if want == {"pylist"}:
        c.define(L.pipseq(Val.pitems(t)))
        s = Val.pitems(t)
        c.keep.append(s)
        c.setitem(c.memo, ("stags", s.get_id()), L.PIPTAGS)
    d = Dyn(t)
    I.set_tags(d, want)
    r = I.unbox(d)
    if reread is not None:
        c.keep.append(nxt)
        c.setitem(g.fields, "reads", (nxt.get_id(), {**known, reread: r}))
    return r


def written(I, text):
    """Text written to the standard output; consecutive pieces are one."""
    c = I.c
    if "print" not in I.target.effects:
        from .ctx import Unsupported
        raise Unsupported("output in a function that is not supposed to write")
    g = I.ghost
    st = g.fields["st"].t
    t = I.str_term(text)
    if t.get_id() == ST.empty.get_id():
        return
    if z3.is_app(st) and st.decl().name() == "next!print!1":
        t = I.cat(Val.strv(st.arg(1)) if L.cons_tag(st.arg(1)) is None else st.arg(1).arg(0), t)
        st = st.arg(0)
    if "ProgramState" in I.target.effects:
        t = constants_joined(I, t)
    c.setitem(g.fields, "st", StateV(uf("next!print!1", St, Val, St)(st, Val.PStr(t))))
    I.note(("fld", g, "st"))


def constants_joined(I, t):
    """The same text, neighbouring constants being one."""
    parts = []
    while z3.is_app(t) and t.decl().name() == "s_cat":
        parts.append(t.arg(0))
        t = t.arg(1)
    parts.append(t)
    out = []
    for p in parts:
        x = L.text_of_literal(p)
        if x is not None and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(p if x is None else x)
    r = ST.empty
    for p in reversed(out):
        r = I.cat(I.lit(p) if isinstance(p, str) else p, r)
    return r


def on_values(I, e):
    """Is e certainly a parse tree [operator, value, ...]?"""
    if not isinstance(e, PList):
        return False
    items = e.items if e.items is not None else I.spine(e.seq)
    if not items or len(items) < 2:
        return False
    tg = lambda x: I.tags(Dyn(I.box(x)))
    return tg(items[0]) == {"oper"} and all(tg(x) <= PIP for x in items[1:])


def bound_call(I, name, fn, args, kwargs):
    """Normalise the arguments of a direct call self.m(...)."""
    from . import engine as E
    node = E.function_node(fn)
    if not kwargs:
        out = list(args[1:])
        npos = len(node.args.posonlyargs + node.args.args)
        miss = npos - len(args)
        if miss > 0 and fn.__defaults__ and not any(hasattr(a, "gen") for a in args):
            out += [I.lift(d) for d in fn.__defaults__[-miss:]]
        if name in READS and isinstance(args[0], Obj):
            out += [args[0].fields[k] for k in READS[name] if k in args[0].fields]
        return call(I, name, out)
    fr = E.Frame(fn.__globals__)
    I.bind_args(node.args, fr, list(args), kwargs, [I.lift(d) for d in (fn.__defaults__ or ())],
                {k: I.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn.__name__)
    out = [fr.locals[p.arg] for p in (node.args.posonlyargs + node.args.args)[1:]]
    if node.args.vararg is not None:
        v = fr.locals[node.args.vararg.arg]
        out += list(v) if isinstance(v, tuple) else [E.StarArg(I.iter_view(v))]
    return call(I, name, out)


class DynMethod:
    """getattr(self, name) for a name that is not known statically."""
    __slots__ = ("kind", "name")

    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class DirOf:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


# ---------------------------------------------------------------------------
# syntax objects: operators, names, lvalues
# ---------------------------------------------------------------------------
OPFIELDS = {"function": {"str"}, "_text": {"str"}, "associativity": {"none", "str"}, "flags": {"int"},
            "arity": {"int"}, "precedence": {"int"}, "default": {"none", "int", "str", "pylist"}}


def op_field(I, oid, name):
    if name == "flags":
        return I.mkint(uf("op_flags", L.Ob, L.I)(oid))
    if name in ("arity", "precedence"):
        return I.mkint(uf("op_" + name, L.Ob, L.I)(oid))
    if name in ("function", "_text"):
        return Sym("str", uf("op_" + name, L.Ob, L.Str)(oid))
    t = uf("op_" + name, L.Ob, Val)(oid)
    I.c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(OPFIELDS[name])]))
    if name == "default":
        # class invariant established by Operator.__init__: [] is the only list
        s = Val.pitems(t)
        I.c.define(z3.Implies(L.is_tag(t, "pylist"), s == SQ.empty))
        I.c.keep.append(s)
        I.c.setitem(I.c.memo, ("emptyseq", s.get_id()), True)
    d = Dyn(t)
    if L.ALLTAGS == I.tags(d):
        I.set_tags(d, OPFIELDS[name])
    return I.unbox(d)


def field_of(I, d, t, name):
    x = d.t
    cons = L.cons_tag(x) is not None
    if t == "oper":
        acc = {"assign": 1, "map": 2, "fold": 3, "scan": 4}
        if name in acc:
            f = [Val.opid, Val.oassign, Val.omap, Val.ofold, Val.oscan][acc[name]]
            return I.mkbool(x.arg(acc[name]) if cons else f(x))
        if name in OPFIELDS:
            return op_field(I, x.arg(0) if cons else Val.opid(x), name)
    elif t in ("name", "literal", "optok", "symtok", "cmdtok") and name == "_text":
        return Sym("str", tokstream.text_of(I, d))
    elif t == "cmd" and name == "argtypes":
        s = uf("cmd_argtypes", L.Ob, L.VSeq)(x.arg(0) if cons else Val.cid(x))
        I.c.keep.append(s)
        I.c.setitem(I.c.memo, ("stags", s.get_id()), frozenset(["str"]))
        return PList(seq=s, frozen=True)
    elif t == "cmd" and name in ("function", "_text"):
        return Sym("str", uf("cmd_" + name, L.Ob, L.Str)(x.arg(0) if cons else Val.cid(x)))
    elif t == "lval":
        ob = x.arg(0) if cons else Val.lref(x)
        if name == "base":
            b = uf("lv_base", L.Ob, Val)(ob)
            I.c.define(z3.Or(L.is_tag(b, "str"), L.is_tag(b, "list")))
            bd = Dyn(b)
            if I.tags(bd) == L.ALLTAGS:
                I.set_tags(bd, {"str", "list"})
            return I.unbox(bd)
        if name == "sliceList":
            return PList(seq=uf("lv_slices", L.Ob, L.VSeq)(ob), frozen=True)
        raise Unsupported(f"attribute {name} of an lvalue")
    return NotImplemented


def op_copy(I, o):
    """operators.Operator.copy: an equal, independent operator."""
    ops = I.w.modules["operators"]
    if isinstance(o, Obj):
        return I.new_obj(ops.Operator, dict(o.fields))
    if type(o) is ops.Operator:
        o = Dyn(I.box(o))
    x = o.t
    cons = L.cons_tag(x) is not None
    g = lambda i, f: x.arg(i) if cons else f(x)
    oid = g(0, Val.opid)
    f = {"_oid": oid, "assign": I.mkbool(g(1, Val.oassign)), "map": I.mkbool(g(2, Val.omap)),
         "fold": I.mkbool(g(3, Val.ofold)), "scan": I.mkbool(g(4, Val.oscan))}
    for nm in OPFIELDS:
        f[nm] = op_field(I, oid, nm)
    return I.new_obj(ops.Operator, f)


def box_syntax(I, v):
    """Val term of a syntax object created by the code, or None."""
    m = I.w.modules
    f = v.fields
    if v.cls is m["operators"].Operator and "_oid" in f:
        oid = f["_oid"]
        for nm in sorted(OPFIELDS):
            a, b = f[nm], op_field(I, f["_oid"], nm)
            if a is b or z3.is_true(I.bool_term(I.py_eq(a, b))):
                continue
            if nm not in ("arity", "precedence", "associativity"):
                raise Unsupported(f"operator with a changed {nm}")
            # the operator with another arity, precedence or associativity
            new = uf("op_with_" + nm, L.Ob, Val, L.Ob)(oid, I.box(a))
            for x in OPFIELDS:
                s = L.I if x in ("flags", "arity", "precedence") else L.Str if x in ("function", "_text") else Val
                acc = uf("op_" + x, L.Ob, s)
                I.c.define(acc(new) == ((I.int_term(a) if s == L.I else I.box(a)) if x == nm else acc(oid)))
            oid = new
        return Val.POper(oid, *[I.bool_term(f[n]) for n in ("assign", "map", "fold", "scan")])
    if v.cls is m["tokens"].Name:
        return Val.PName(I.str_term(f["_text"]))
    if v.cls.__module__ == "tokens" and issubclass(v.cls, m["tokens"].Literal) and v.cls.__name__ in tokstream.KINDS:
        return tokstream.new_literal(I, v)
    tt = {m["tokens"].Operator: Val.POpTok, m["tokens"].Symbol: Val.PSymTok, m["tokens"].Command: Val.PCmdTok}.get(v.cls)
    if tt is not None:
        return tt(I.str_term(f["_text"]))
    if v.cls is m["execution"].Lval and {"base", "sliceList", "evaluated"} <= set(f):
        mk = uf("lv_mk", Val, L.VSeq, Val, L.Ob)
        b, s, e = I.box(f["base"]), I.seq_of(f["sliceList"]), I.box(f["evaluated"])
        ob = mk(b, s, e)
        I.c.define(z3.And(uf("lv_base", L.Ob, Val)(ob) == b, uf("lv_slices", L.Ob, L.VSeq)(ob) == s))
        return Val.PLval(ob)
    return None


def box_host_syntax(I, v):
    m = I.w.modules
    if type(v) is m["operators"].Operator:
        key = "op!%s!%s!%s" % (v._text, v.arity, v.function)
        return Val.POper(z3.Const(key, L.Ob), *[z3.BoolVal(bool(x)) for x in (v.assign, v.map, v.fold, v.scan)])
    if type(v) is m["tokens"].Name:
        return Val.PName(I.lit(v._text))
    return None


def install(w):
    m = w.modules
    X, ops, tk = m["execution"], m["operators"], m["tokens"]
    w.tag_class.update({"name": tk.Name, "literal": tk.Literal, "lval": X.Lval, "oper": ops.Operator,
                        "cmd": ops.Command, "optok": tk.Operator, "symtok": tk.Symbol, "cmdtok": tk.Command})
    w.models[ops.Operator.copy] = lambda I, a, k: op_copy(I, a[0])
    w.effect_fns = {}
    for nm, f in vars(X.ProgramState).items():
        if isinstance(f, types.FunctionType):
            w.effect_fns[f] = nm
    for nm in tokstream.RESULT:
        f = getattr(m["parsing"], nm, None)
        if isinstance(f, types.FunctionType):
            w.effect_fns[f] = nm
    RESULT.update(tokstream.RESULT)

    def m_getattr(I, a, k):
        o, nm = a[0], I.unbox(a[1])
        if isinstance(nm, str):
            try:
                return I.get_attribute(o, nm)
            except PyRaise as p:
                if len(a) > 2 and issubclass(p.exc.cls, AttributeError):
                    return a[2]
                raise
        if isinstance(o, Obj) and o.cls is X.ProgramState and I.is_str_like(nm) and len(a) == 2:
            return DynMethod("op", nm)
        raise Unsupported("getattr with an unknown name")
    w.models[getattr] = m_getattr
    w.models[dir] = lambda I, a, k: DirOf(a[0])


def contains_dir(I, d, x):
    x = I.unbox(x)
    if isinstance(x, str):
        return hasattr(d.o.cls, x) or x in d.o.fields
    return I.mkbool(uf("has_method", L.Str, L.B)(I.str_term(x)))
