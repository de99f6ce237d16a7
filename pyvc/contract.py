"""Contracts: specification functions attached to functions of /repo, their
use at call sites, and their verification against the real code."""
import ast
import inspect
import itertools
import time
import types
import z3
from . import logic as L
from .logic import Val, OInt, SQ, ST
from .values import *
from .ctx import Ctx, Prover, Forall, TRUE, FALSE, has_quant, forget
from . import engine as E
from . import maps
from . import tokstream
from . import spec as SP
from .domains import *
from .world import World, uf

REGISTRY = {}            # "module.Qual.name" -> Contract


class SuchV:
    def __init__(self, pred):
        self.pred = pred


class Contract:
    def __init__(self, name, spec, props, args, requires=None, result=None, raises=(), inline=False,
                 may_diverge=False, unfold=(), variants=None, post=None, native=True, note="", opaque=False,
                 native_args=None, budget=None, state=False, lemma=False, bounded=False, cost=1, unroll=False,
                 fold=None, fresh=False, opaque_calls=(),
                 result_if=None, raises_if=None, effects=(), effects_raise=False, effect_result=None, split_zip=False, harness=None, callee=False, attrs=None, max_paths=4000, environment=None):
        self.parent = None
        self.max_paths = max_paths
        self.environment = environment     # context (input, files, ...) in which the function is tried
        self.harness = harness      # a caller of the function that uses its result; the contract is about what it gives
        self.raises_if = raises_if  # condition on the arguments under which the declared exceptions may occur: proved and then assumed
        self.result_if = result_if  # (condition on the arguments, tags): a narrower result, proved and then assumed
        self.attrs = attrs or {}    # class attributes of this case, {"List.outFormat": value}
        self.cases = []
        self.callee = callee        # a #variant that also serves at call sites
        self.split_zip = split_zip
        self.effects = frozenset(effects)        # ProgramState methods seen as abstract effects
        self.effects_raise = effects_raise
        # narrower results assumed of some effects (reported as assumptions)
        self.effect_result = {k: frozenset(v) for k, v in (effect_result or {}).items()}
        self.opaque_calls = frozenset(opaque_calls)   # contracts seen as uninterpreted functions in this proof
        self.key = name             # "module.Class.function" or "module.Class.function#variant"
        name = name.split("#")[0]
        self.fresh = fresh          # copies are opaque; the result shares no mutable object with the arguments
        self.fold = fold            # equal form of the specification used at call sites (recursive ones too)
        self.unroll = unroll        # recursive calls in the code use the (non-recursive) specification
        self.name = self.key
        self.module, self.qualname = name.split(".", 1)
        self.spec, self.props, self.args = spec, list(props), args
        self.requires, self.result, self.raises = requires, result, tuple(raises)
        self.inline, self.may_diverge, self.unfold = inline, may_diverge, set(unfold)
        self.post, self.native, self.note = post, native, note
        self.opaque = opaque          # callers see an uninterpreted function
        self.native_args = native_args
        self.budget = budget
        self.state = state
        self.lemma = lemma
        self.bounded, self.cost = bounded, cost

    def real(self, world):
        m = world.modules[self.module]
        o = m
        for p in self.qualname.split("."):
            o = o.__dict__[p] if isinstance(o, type) else getattr(o, p)
        return getattr(o, "__func__", o)

    # ---- call sites --------------------------------------------------------
    def bind(self, I, fn, args, kwargs):
        node = E.function_node(fn)
        fr = E.Frame(fn.__globals__)
        defaults = [I.lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: I.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        I.bind_args(node.args, fr, list(args), kwargs, defaults, kwd, fn.__name__)
        return fr.locals

    def apply(self, I, fn, args, kwargs):
        if any(isinstance(a, E.StarArg) for a in args):
            return NotImplemented
        loc = self.bind(I, fn, args, kwargs)
        if self.harness is not None:
            return tokstream.bubble(I, self, next(iter(loc.values())))
        names = list(self.args)
        vals = []
        for p in names:
            if p not in loc:
                raise Unsupported(f"contract {self.name}: parameter {p} not in code")
            v = loc[p] = I.unbox(loc[p])
            dom = self.args[p]
            if isinstance(v, Dyn) and isinstance(dom, TagDom):
                tg = I.tags(v)
                if tg & dom.tagset and not tg <= dom.tagset:
                    # in or out of the contract's domain?
                    I.has_tag(v, dom.tagset)
                    v = loc[p] = I.unbox(v)
            if not self.args[p].accepts(I, v) and not (
                    self.qualname.split(".")[-1] in I.target.opaque_calls and isinstance(v, (Dyn, E.PTuple))):
                return NotImplemented
            vals.append(v)
        I.used_contracts.add(self.name)
        if self.requires is not None:
            g = I.bool_term(I.inline(self.requires, vals, {}))
            if not z3.is_true(g) and not I.c.entails(g):
                I.obligation(f"precondition of {self.name}", g)
                I.c.assume(g)
        if self.fold is not None:
            return I.inline(self.fold, vals, {})
        if ((self is I.target or self is I.target.parent) and not self.unroll) or self in I.con_stack or self.opaque or \
                self.qualname.split(".")[-1] in I.target.opaque_calls:
            return self.apply_opaque(I, names, vals)
        I.con_stack.append(self)
        sm = I.spec_mode
        try:
            r = I.inline(self.spec, vals, {})
        finally:
            I.con_stack.pop()
        if isinstance(r, SuchV):
            bx = [I.box(v) for v in vals]
            t = uf("such!" + self.name, *([Val] * len(bx) + [Val]))(*bx)
            d = Dyn(t)
            dom = self.result
            if dom is not None:
                I.c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(dom.tagset)]))
                if dom.tagset <= L.PIPTAGS:
                    I.c.define(L.pip(t))
                I.set_tags(d, dom.tagset)
            d = I.unbox(d)
            I.con_stack.append(self)
            try:
                I.c.assume(I.bool_term(I.call(r.pred, [d], {})))
            finally:
                I.con_stack.pop()
            return d
        return r

    def apply_opaque(self, I, names, vals):
        """A call about which only functionality (and the declared result
        domain and exceptions) is known: used for recursive occurrences."""
        bx = [I.box(v) for v in vals]
        nm = self.name
        c = I.c
        if self.effects:
            return self.apply_effect(I, nm, vals, bx)
        raising = bool(self.raises)
        if raising and self.raises_if is not None:
            g = I.bool_term(I.inline(self.raises_if, vals, {}))
            raising = not (z3.is_false(g) or c.entails(z3.Not(g)))
        if raising:
            k = uf("exc!" + nm, *([Val] * len(bx) + [L.I]))(*bx)
            n = len(self.raises)
            i = c.choose([k == j + 1 for j in range(n)] + [z3.And(*[k != j + 1 for j in range(n)])])
            if i < n:
                raise PyRaise(ExcObj(self.raises[i]))
        for p, v, b in zip(names, vals, bx):
            if self.args[p].mutable:
                I_mutate(I, v, uf(f"mut!{nm}!{p}", *([Val] * len(bx) + [Val]))(*bx))
        t = uf("call!" + nm, *([Val] * len(bx) + [Val]))(*bx)
        d = Dyn(t)
        if self.result is not None:
            tg = self.result.tagset
            if self.result_if is not None:
                g = I.bool_term(I.inline(self.result_if[0], vals, {}))
                if z3.is_true(g) or c.entails(g):
                    tg = frozenset(self.result_if[1])
            c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(tg)]))
            if tg <= L.PIPTAGS:
                c.define(L.pip(t))
            elif tg & L.PIPTAGS:
                c.define(z3.Implies(z3.Or(*[L.is_tag(t, x) for x in sorted(tg & L.PIPTAGS)]), L.pip(t)))
            I.set_tags(d, tg)
        return I.unbox(d)

    def apply_effect(self, I, nm, vals, bx):
        """A recursive call of a function that acts on the interpreter's
        state: result, exception and next state depend on the state too."""
        from .effects import StateV
        from .logic import St
        c = I.c
        g = I.ghost
        bx = [I.boxf(v) for v in vals]
        st = g.fields["st"].t
        sorts = [St] + [Val] * len(bx)
        i = n = len(self.raises)
        if n:
            k = uf("exc!" + nm, *sorts, L.I)(st, *bx)
            i = c.choose([k == j + 1 for j in range(n)] + [z3.And(*[k != j + 1 for j in range(n)])])
        c.setitem(g.fields, "st", StateV(uf("next!" + nm, *sorts, St)(st, *bx)))
        I.note(("fld", g, "st"))
        if i < n:
            raise PyRaise(ExcObj(self.raises[i]))
        if self.result is None:
            return None
        t = uf("ret!" + nm, *sorts, Val)(st, *bx)
        tg = self.result.tagset
        c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(tg)]))
        if tg <= L.PIPTAGS:
            c.define(L.pip(t))
        d = Dyn(t)
        I.set_tags(d, tg)
        return I.unbox(d)


def I_mutate(I, v, t):
    """v (a heap List/Scalar) now has the contents of Val term t."""
    P = I.w.P
    if isinstance(v, Obj) and v.cls is P.List:
        I.c.define(z3.And(L.is_tag(t, "list"), L.pip(t)))
        I.set_plist(v.fields["_value"], None, Val.items(t))
    elif isinstance(v, Obj) and v.cls is P.Scalar:
        I.c.define(L.is_tag(t, "scalar"))
        I.set_attribute(v, "_value", Sym("str", Val.sv(t)))
    elif isinstance(v, PList):
        I.c.define(L.is_tag(t, "pylist"))
        I.set_plist(v, None, Val.pitems(t))
    else:
        raise Unsupported("opaque mutation")


def contract(name, props=(), args=None, cases=None, **kw):
    """cases: {parameter: [tags, ...]} splits the proof: the contract is
    proved for every combination separately (the parts must cover the
    parameter's domain)."""
    def deco(f):
        c = Contract(name, f, props, args or {}, **kw)
        if cases:
            split(c, cases, kw)
        if name in REGISTRY:
            raise RuntimeError("duplicate contract " + name)
        REGISTRY[name] = c
        return f
    return deco


# ---------------------------------------------------------------------------
# symbolic meaning of the specification vocabulary
# ---------------------------------------------------------------------------
def install_spec_models(w):
    M = w.models
    P = w.P

    def model(f):
        def d(g):
            M[f] = g
            return g
        return d

    if getattr(SP, "graft", None) is not None:
        M[SP.graft] = lambda I, a, k: I.new_plist(seq=tokstream.graft(I, I.boxf(a[0]), I.boxf(a[1]), I.seq_of(I.to_plist(a[2]))))

    @model(SP.such)
    def _(I, a, k):
        return SuchV(a[0])

    @model(SP.infinite)
    def _(I, a, k):
        f = a[0]
        return GenObj(n=None, elem=lambda i: I.call(f, [I.mkint(i)], {}))

    @model(SP.same)
    def _(I, a, k):
        return I.mkbool(I.val_eq(I.box(a[0]), I.box(a[1])))

    @model(SP.copyof)
    def _(I, a, k):
        return I.call(I.get_attribute(I.unbox(a[0]), "copy"), [], {})

    @model(SP.mklist)
    def _(I, a, k):
        p = I.to_plist(a[0])
        return I.new_obj(P.List, {"_value": p})

    @model(SP.rawscalar)
    def _(I, a, k):
        return I.new_obj(P.Scalar, {"_value": I.str_(a[0])})

    @model(SP.mkscalar)
    def _(I, a, k):
        return I.new_obj(P.Scalar, {"_value": scalar_text(I, a[0])})

    @model(SP.mktext)
    def _(I, a, k):
        if I.target is not None and "scalar_text" in I.target.unfold:
            return I.inline(SP.mktext, a, k)
        return scalar_text(I, a[0])

    @model(SP.mkrange)
    def _(I, a, k):
        return I.new_obj(P.Range, {"_lower": a[0], "_upper": a[1]})

    @model(SP.scalar_int)
    def _(I, a, k):
        if I.target is not None and "scalar_int" in I.target.unfold:
            return I.inline(SP.scalar_int, a, k)
        return I.mkint(L.intOfStr(I.str_term(I.unbox(a[0]))))

    @model(SP.bag)
    def _(I, a, k):
        return Dyn(uf("bag", L.VSeq, Val)(I.seq_of(a[0])))

    @model(SP.scalar_num)
    def _(I, a, k):
        if I.target is not None and "scalar_num" in I.target.unfold:
            return I.inline(SP.scalar_num, a, k)
        return Dyn(L.numOf(Val.Scalar(I.str_term(I.unbox(a[0])))))

    @model(SP.zero_form)
    def _(I, a, k):
        if I.target is not None and "zero_form" in I.target.unfold:
            return I.inline(SP.zero_form, a, k)
        return I.mkbool(L.zeroForm(I.str_term(I.unbox(a[0]))))


def scalar_text(I, v):
    """Text of Scalar(v) for a Python str/int/bool/float."""
    v = I.unbox(v)
    if isinstance(v, Dyn) and not I.is_num_dyn(v):
        I.resolve(v)
        v = I.unbox(v)
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, Sym) and v.kind == "bool":
        return I.str_(I.mkint(I.int_term(v)))
    if I.is_flt_like(v) or (isinstance(v, Dyn) and I.is_num_dyn(v)):
        t = I.num_term(v)
        r = L.strOf(Val.Scalar(L.ST.empty)) if False else uf("scalar_num_text", Val, L.Str)(t)
        I.c.define(z3.Implies(L.is_tag(t, "int"), r == L.istr(Val.ival(t))))
        return Sym("str", r)
    return I.str_(v)


# ---------------------------------------------------------------------------
class Result:
    def __init__(self, name):
        self.name = name
        self.status = None          # proved / failed / undecided / vacuous
        self.obls = []              # (name, status)
        self.reason = ""
        self.time = 0.0
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.used = []
        self.backends = {}
        self.inline_obls = 0


def goal_equal(I, a, b):
    """z3 goals [(label, Bool)] for 'code value a equals spec value b'."""
    a, b = I.unbox(a), I.unbox(b)
    if isinstance(b, SuchV):
        return [("postcondition", I.bool_term(I.call(b.pred, [a], {})))]
    if isinstance(a, GenObj) or isinstance(b, GenObj):
        av = a if isinstance(a, GenObj) else I.iter_view(a)
        bv = b if isinstance(b, GenObj) else I.iter_view(b)
        ainf = av.items is None and av.n is None and av.seq is None
        binf = bv.items is None and bv.n is None and bv.seq is None
        if ainf != binf:
            return [("finiteness of the iterator", FALSE)]
        if ainf:
            k = I.c.fresh("gk", L.I)
            I.c.assume(k >= 0)
            return [("elements", g) for _, g in goal_equal(I, av.elem(k), bv.elem(k))]
        return [("elements", I.seq_eq(I.seq_of(av), I.seq_of(bv)))]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return [("tuple length", FALSE)]
        r = []
        for x, y in zip(a, b):
            r += goal_equal(I, x, y)
        return r
    if isinstance(a, PList) and isinstance(b, PList):
        return [("result", I.seq_eq(I.seq_of(a), I.seq_of(b)))]
    if isinstance(a, (type, types.FunctionType, RegexV)) or isinstance(b, (type, types.FunctionType, RegexV)):
        if isinstance(a, RegexV) and isinstance(b, RegexV):
            return [("result", z3.And(a.src == b.src, a.flags == b.flags))]
        return [("result", z3.BoolVal(a is b))]
    return [("result", I.val_eq(I.box(a), I.box(b)))]


def make_interp(world, budget):
    ctx = Ctx(deadline=time.time() + budget)
    I = E.Interp(ctx, world)
    I.prover = Prover()
    I.used_contracts = set()
    return I


def run_side(I, thunk):
    try:
        return ("return", thunk())
    except PyRaise as p:
        return ("raise", p.exc)
    except Diverges:
        return ("diverge", None)


def split(c, cases, kw):
    import itertools
    for p, parts in cases.items():
        if "." in p:
            continue              # values of a class attribute (an option of the program)
        if frozenset().union(*parts) != c.args[p].tagset:
            raise RuntimeError(f"the cases of {c.key} do not cover {p}")
    for i, combo in enumerate(itertools.product(*cases.values())):
        doms = dict(c.args)
        attrs = dict(c.attrs)
        for p, tags in zip(cases, combo):
            if "." in p:
                attrs[p] = tags
            else:
                doms[p] = type(c.args[p])(*tags)
        k = Contract(f"{c.key}#case{i + 1}", c.spec, c.props, doms, **{**kw, "attrs": attrs})
        k.parent = c
        REGISTRY[k.key] = k
        c.cases.append(k.key)


def verify(con, world, budget=200.0, thorough=False, verbose=False):
    res = Result(con.name)
    t0 = time.time()
    forget()
    if con.cases:
        # proved by cases, each an obligation of its own
        res.status, res.used, res.paths = "proved", list(con.cases), 0
        res.obls.append((f"{con.name}/cases cover the domain", "proved"))
        return res
    I = make_interp(world, budget)
    I.c.max_paths = con.max_paths
    I.target = con
    I.may_diverge = con.may_diverge
    try:
        fn = con.real(world)
    except (KeyError, AttributeError) as e:
        res.status, res.reason = "undecided", f"function {con.name} not found in the code ({e})"
        return res
    node = None
    pnames = list(con.args)
    sig_args = None
    obls = []

    def once():
        c = I.c
        c.counter = 0
        c.canon = {}
        I.obls = []
        E_frames = I.frames
        I.frames = []
        I.depth = 0
        I.con_stack = []
        I.spec_mode = False
        c.serial = 0
        world.begin(I)
        syms = {}
        code_args, spec_args = {}, {}
        for p in pnames:
            d = con.args[p]
            v = d.sym(I, p)
            code_args[p] = v
            if d.mutable:
                cnt = c.counter
                spec_args[p] = d.sym(I, p)
            else:
                spec_args[p] = v
        if con.requires is not None:
            c.assume(I.bool_term(I.inline(con.requires, [spec_args[p] for p in pnames], {})))
        if not c.feasible(TRUE):
            raise Infeasible()
        out_c = run_side(I, lambda: call_code(I, con, fn, pnames, code_args))
        st_c = world.end_side(I, "code")
        I.spec_mode = True
        out_s = run_side(I, lambda: I.inline(con.spec, [spec_args[p] for p in pnames], {}))
        st_s = world.end_side(I, "spec")
        if out_s[0] == "raise" and out_s[1].cls is SP.Undefined:
            I.obligation("outside the precondition", TRUE)
            return [(n, h, g, r, list(I.c.log)) for n, h, g, r in I.obls if n == "outside the precondition"]
        if out_c[0] == "diverge" or out_s[0] == "diverge":
            if out_c[0] != out_s[0]:
                I.obligation("termination: the code runs forever" if out_c[0] == "diverge" else
                             "the code ends where the contract runs forever", FALSE)
            elif not con.may_diverge:
                I.obligation("termination: loop has no exit", FALSE)
            else:
                I.obligation("both run forever", TRUE)
            return [(n, h, g, r, list(I.c.log)) for n, h, g, r in I.obls]
        if out_c[0] == "raise" and out_s[0] == "raise":
            ok = issubclass(out_c[1].cls, out_s[1].cls)
            I.obligation("exception class" if ok else f"exception class {out_c[1].cls.__name__} instead of {out_s[1].cls.__name__}", z3.BoolVal(ok))
            if con.result is not None or con.raises:
                I.obligation("declared exception " + out_c[1].cls.__name__, z3.BoolVal(any(issubclass(out_c[1].cls, x) for x in con.raises)))
            if con.raises_if is not None:
                I.obligation("exception only where declared", I.bool_term(I.inline(con.raises_if, [spec_args[p] for p in pnames], {})))
        elif out_c[0] == "raise":
            I.obligation(f"no {out_c[1].cls.__name__} is raised", FALSE)
        elif out_s[0] == "raise":
            I.obligation(f"{out_s[1].cls.__name__} is raised", FALSE)
        else:
            for lab, g in goal_equal(I, out_c[1], out_s[1]):
                I.obligation(lab, g)
            if con.result is not None:
                kinds = set(con.result.tagset)
                if con.result_if is not None:
                    g = I.bool_term(I.inline(con.result_if[0], [spec_args[p] for p in pnames], {}))
                    if I.c.entails(g):
                        kinds = set(con.result_if[1])
                b = I.boxf(out_c[1])
                I.obligation("kind of the result", z3.Or(*[L.is_tag(b, x) for x in sorted(kinds)]))
            if con.post is not None:
                g = I.bool_term(I.inline(con.post, [code_args[p] for p in pnames] + [out_c[1]], {}))
                I.obligation("postcondition", g)
        if con.fresh == "result" and out_c[0] == "return":
            I.obligation("the result is a copy, not part of a variable", z3.BoolVal(maps.owned(I, out_c[1])))
        elif con.fresh and out_c[0] == "return":
            roots = [(p, code_args[p]) for p in pnames]
            mut = [p for p in pnames if con.args[p].mutable]
            for where in [("result", out_c[1])] + [(p, code_args[p]) for p in mut]:
                others = [v for p, v in roots if p != where[0]]
                bad = shared(I, where[1], others)
                I.obligation(f"{where[0]} shares no mutable object with the arguments", z3.BoolVal(not bad))
        for p in pnames:
            if con.args[p].mutable and not con.args[p].consumed and not isinstance(con.args[p], StreamDom) and not (isinstance(con.args[p], FreshSelf) and out_c[0] == "raise"):
                for lab, g in maps.final_goals(I, f"final state of {p}", code_args[p], spec_args[p]):
                    I.obligation(lab, g)
        if out_c[0] == "raise" and any(isinstance(d, StreamDom) for d in con.args.values()):
            st_c = st_s         # what is left of a program that cannot be read does not matter
        for lab, g in world.state_goals(I, st_c, st_s):
            I.obligation(lab, g)
        return [(n, h, g, r, list(I.c.log)) for n, h, g, r in I.obls]

    try:
        paths = I.c.explore(once)
        res.paths = len(paths)
    except Unsupported as u:
        res.status, res.reason = "undecided", str(u)
        res.time = time.time() - t0
        res.used = sorted(I.used_contracts)
        if verbose:
            import traceback
            traceback.print_exc()
        return res
    except RecursionError:
        res.status, res.reason = "undecided", "recursion limit in the verifier"
        return res
    allobl = []
    for i, (pcs, defs, obs) in enumerate(paths):
        for n, h, g, r, _ in obs:
            allobl.append((i, n, h, g, r, pcs, defs))
    if not allobl:
        res.status, res.reason = "vacuous", "no feasible execution satisfies the precondition"
        return res
    from .lemmas import prove_obligation
    failed = []
    nproved = 0
    deadline = t0 + budget
    for i, n, h, g, r, pcs, defs in allobl:
        if len(failed) >= 3:
            res.obls.append((f"{con.name}/path{i}/{n}", "not attempted"))
            continue
        ok = prove_obligation(I, h, g, r, deadline, thorough)
        label = f"{con.name}/path{i}/{n}"
        res.obls.append((label, "proved" if ok else "failed"))
        if ok:
            nproved += 1
        else:
            failed.append(label)
            if verbose:
                print("FAILED", label)
                for q in pcs:
                    print("   pc", q)
                print("   goal", g)
    res.status = "proved" if not failed else "failed"
    res.reason = "; ".join(failed[:3])
    res.time = time.time() - t0
    res.solver_time = I.prover.time + I.c.solver_time
    res.queries = I.prover.queries + I.c.nqueries
    res.used = sorted(I.used_contracts)
    res.backends = dict(I.prover.backends)
    res.inline_obls = I.stats.get("inline_obligations", 0)
    return res


def shared(I, v, args):
    """Does the engine value v share a mutable object with one of args?
    (Items that are symbolic values are covered by the equality with the
    opaque copies of the specification.)"""
    P = I.w.P
    seen = set()

    def reach(x, out):
        if isinstance(x, Obj):
            out[id(x)] = x
            for f in x.fields.values():
                reach(f, out)
        elif isinstance(x, PList):
            out[id(x)] = x
            for y in x.items or ():
                reach(y, out)
        return out
    given = {}
    for a in args:
        reach(a, given)
        if isinstance(a, Dyn):
            given["t%d" % a.t.get_id()] = a
    got = reach(v, {})
    for k, x in got.items():
        if k in given:
            return True
        if isinstance(x, PList) and x.frozen and x.serial == 0:
            return True          # the _value of a list that existed before
    if isinstance(v, Dyn) and "t%d" % v.t.get_id() in given:
        return bool(I.tags(v) & {"scalar", "list"})
    return False


def call_code(I, con, fn, pnames, args):
    if con.harness is not None:
        return tokstream.run_harness(I, con, fn, [args[p] for p in pnames])
    node = E.function_node(fn)
    a = node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    pargs, kwargs = [], {}
    stop = False
    for p in pos:
        if p in args and not stop:
            pargs.append(args[p])
        elif p in args:
            kwargs[p] = args[p]
        else:
            stop = True
    for p in a.kwonlyargs:
        if p.arg in args:
            kwargs[p.arg] = args[p.arg]
    if a.vararg is not None and a.vararg.arg in args:
        v = args[a.vararg.arg]
        if isinstance(v, tuple):
            pargs += list(v)
        else:
            pargs.append(E.StarArg(I.iter_view(v)))
    known = set(pos) | {p.arg for p in a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set())
    for p in pnames:
        if p not in known:
            raise Unsupported(f"parameter {p} of the contract does not exist in {con.name}")
    return I.inline(fn, pargs, kwargs)
