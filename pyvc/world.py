"""The verifier's view of the program: real modules, contracts, models of
Python built-ins and library functions."""
import re
import ast
import math
import types
import itertools
import functools
import collections
import random
import sys
import z3
from . import logic as L
from .logic import Val, OInt, SQ, ST
from .values import *
from .ctx import Forall, TRUE, FALSE, occurs, has_quant
from . import engine as E
from . import effects
from . import tokstream

UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


def regex_key(rx):
    """A name identifying a compiled regex up to trivial rewriting."""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        p = sp.parse(rx.pattern, rx.flags)
        return "rx" + repr(p.data if hasattr(p, "data") else p) + "/" + str(rx.flags & ~re.UNICODE)
    except Exception:
        return "rx" + rx.pattern + "/" + str(rx.flags)


class World:
    concrete = False

    def __init__(self, modules, contracts, inline_files):
        self.modules = modules
        self.P = modules["ptypes"]
        self.repo_modules = set(modules)
        self.contracts = contracts           # (module, qualname) -> Contract
        self.inline_files = set(inline_files)
        self.own_classes = set()
        self.models = {}
        self.tag_class = {
            "nil": self.P.Nil, "scalar": self.P.Scalar, "pattern": self.P.Pattern, "list": self.P.List,
            "range": self.P.Range, "block": self.P.Block, "none": type(None), "int": int, "bool": bool,
            "flt": float, "str": str, "pylist": list, "tuple": tuple, "slice": slice}
        self.fn_class = {}
        for m in modules.values():
            for c in vars(m).values():
                if isinstance(c, type) and c.__module__ == m.__name__:
                    for f in vars(c).values():
                        f = getattr(f, "__func__", f)
                        if isinstance(f, types.FunctionType):
                            self.fn_class[f] = c
        self.host_ids = {}
        self.obj_models = {}
        self.opaque_classes = {}
        install_models(self)
        effects.install(self)
        rxmod.install(self)
        host.install(self)

    # -- per-run state hooks ------------------------------------------------
    def begin(self, I):
        self.host_ids = {}
        effects.begin(self, I)

    def end_side(self, I, side):
        return effects.end_side(self, I, side)

    def state_goals(self, I, a, b):
        return effects.state_goals(self, I, a, b)

    # -- lookups ---------------------------------------------------------
    def uf(self, *a):
        return uf(*a)

    def contract_for(self, fn):
        return self.contracts.get((fn.__module__, fn.__qualname__))

    def class_of_function(self, fn):
        return self.fn_class.get(fn)

    def nil_value(self, I):
        return Dyn(Val.Nil)

    def lift(self, I, v):
        P = self.P
        if isinstance(v, P.Nil):
            return Dyn(Val.Nil)
        if type(v) in (P.Scalar, P.List, P.Range, P.Pattern):
            return Dyn(self.lift_pip(I, v))
        if isinstance(v, tuple):
            return tuple(I.lift(x) for x in v)
        return v                      # opaque host constant

    def lift_pip(self, I, v):
        P = self.P
        if isinstance(v, P.Nil):
            return Val.Nil
        oi = lambda x: OInt.onone if x is None else OInt.osome(z3.IntVal(x))
        if type(v) is P.Scalar:
            return Val.Scalar(I.lit(v._value))
        if type(v) is P.Range:
            return Val.Range(oi(v._lower), oi(v._upper))
        if type(v) is P.Pattern:
            return Val.Pattern(I.lit(v._raw), z3.IntVal(int(v._flags)))
        if type(v) is P.List:
            s = SQ.empty
            for x in v._value:
                s = I.cat(s, SQ.unit(self.lift_pip(I, x)))
            return Val.List(s)
        raise Unsupported(f"lift {v!r:.50}")

    # -- opaque / extension hooks (overridden by modelled subsystems) --------
    def box_obj(self, I, v):
        """Opaque heap object stored in a value: identity only."""
        r = effects.box_syntax(I, v)
        if r is not None:
            return r
        o = z3.Const(f"obj!{v.cls.__name__}!{v.serial}", L.Ob)
        return Val.Opq(o, self.class_id(v.cls))

    def class_id(self, cls):
        if cls not in self.opaque_classes:
            self.opaque_classes[cls] = len(self.opaque_classes) + 1
        return z3.IntVal(self.opaque_classes[cls])

    def box_host(self, I, v):
        if isinstance(v, (types.FunctionType, type, types.BuiltinFunctionType, re.Pattern, types.ModuleType)):
            nm = getattr(v, "__qualname__", None) or repr(v)
            return Val.Opq(z3.Const("host!" + nm, L.Ob), z3.IntVal(0))
        if isinstance(v, (Closure, BoundMethod)):
            return None
        h = effects.box_host_syntax(I, v)
        return h if h is not None else self.host_box(I, v)

    def host_box(self, I, v):
        if type(v).__module__ in self.repo_modules:
            if v not in self.host_ids.values() if False else True:
                key = id(v)
                if key not in self.host_ids:
                    self.host_ids[key] = (v, len(self.host_ids))
                return Val.Opq(z3.Const(f"hostobj!{self.host_ids[key][1]}", L.Ob), self.class_id(type(v)))
        return None

    def truth_opaque(self, I, d):
        if I.tags(d) <= L.SYNTAX:
            return TRUE
        raise Unsupported("truth of an opaque object")

    def truth_obj(self, I, o):
        for nm in ("__bool__", "__len__"):
            f = I.find_method(o.cls, nm)
            if isinstance(f, types.FunctionType):
                return I.bool_term(I.call_function(f, [o], {}))
        return TRUE

    def opaque_class(self, I, d):
        t = d.t
        if L.cons_tag(t) == "opq" and z3.is_int_value(t.arg(1)):
            n = t.arg(1).as_long()
            for c, i in self.opaque_classes.items():
                if i == n:
                    return c
        return None

    def isinstance_opaque(self, I, v, cl, want):
        if I.tags(v) == {"opq"}:
            t = v.t
            opts = [c for c in self.opaque_classes if issubclass(c, cl)]
            f = uf("opq_isinst!" + "|".join(sorted(c.__name__ for c in cl)), L.Ob, L.B)
            return I.c.branch(f(Val.oid(t)))
        if I.has_tag(v, {"opq"}):
            return self.isinstance_opaque(I, v, cl, want)
        return I.has_tag(v, want)

    def obj_eq(self, I, a, b):
        if a is b:
            return True
        f = I.find_method(a.cls, "__eq__")
        if isinstance(f, types.FunctionType):
            return I.call_function(f, [a, b], {})
        return False

    def dyn_identity(self, I, a, b):
        raise Unsupported("identity of two dynamic values")

    def opaque_attr(self, I, o, name):
        f = uf("attr!" + name, L.Ob, Val)
        return I.unbox(Dyn(f(Val.oid(o.t))))

    def mutated(self, I, o):
        pass

    def instantiate(self, I, cls, args, kwargs):
        if cls is self.modules["execution"].ProgramState:
            return host.new_state(I, args, kwargs)
        return NotImplemented

    # -- virtual methods of Pip values ------------------------------------------
    VIRTUAL = {"copy", "toNumber", "isEmpty", "isFinite", "__eq__", "__bool__", "__str__", "__repr__"}

    def virtual(self, name):
        return name in self.VIRTUAL

    def is_pip_method(self, I, f):
        o = f.self_
        cls = I.class_of(o)
        if cls is None:
            return True
        if not (isinstance(cls, type) and issubclass(cls, self.P.PipType)):
            return False
        # while verifying the method itself its body is executed
        return True

    def call_virtual(self, I, f, args, kwargs):
        o, name = f.self_, f.name
        if name == "copy" and not args and I.target is not None and I.target.fresh and isinstance(o, Dyn) \
                and not I.tags(o) <= {"nil"}:
            tg = I.tags(o)
            t = uf("copy!", Val, Val)(o.t)
            I.c.define(z3.And(L.pip(t), *[L.is_tag(o.t, x) == L.is_tag(t, x) for x in sorted(tg)]))
            # a copy of a copy is a copy
            x, cp = z3.Const("x", Val), uf("copy!", Val, Val)
            I.c.define(z3.ForAll([x], cp(cp(x)) == cp(x), patterns=[cp(cp(x))]))
            d = Dyn(t)
            I.set_tags(d, tg)
            return d
        if name == "copy" and not args:
            if isinstance(o, Dyn) and len(I.tags(o)) > 1:
                return Dyn(o.t)
            return self.copy_value(I, o)
        if name == "toNumber" and not args:
            t = I.box(o)
            d = Dyn(t)
            if isinstance(o, Dyn):
                tg = I.tags(o)
                d = o
            else:
                tg = I.tags(d)
            if tg <= {"nil", "pattern", "block"}:
                return 0
            if tg <= {"scalar", "nil", "pattern", "block"}:
                if L.cons_tag(t) == "scalar" and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "s_unit" \
                        and z3.is_int_value(t.arg(0).arg(0)) and 48 <= t.arg(0).arg(0).as_long() <= 57:
                    return t.arg(0).arg(0).as_long() - 48       # a digit
                return Dyn(L.numOf(t))
            if len(tg) > 1 and not tg <= {"list", "range"}:
                if I.has_tag(d, {"scalar", "nil", "pattern", "block"}):
                    return Dyn(L.numOf(t))
                tg = I.tags(d)
            # (nested) Python lists of numbers, a function of the value
            r = Dyn(Val.PList(uf("numbers", Val, L.VSeq)(t)))
            I.set_tags(r, {"pylist"})
            return r
        if name in ("isEmpty", "isFinite", "__bool__"):
            if isinstance(o, Obj) or len(I.tags(o)) == 1:
                t = I.box(o)
                (tag,) = I.tags(Dyn(t)) if not isinstance(o, Dyn) else I.tags(o)
            else:
                t, tag = o.t, None
            return I.mkbool(self.pred(I, name, t, I.tags(Dyn(t)) if not isinstance(o, Dyn) else I.tags(o)))
        if name == "__eq__":
            return I.py_eq(o, args[0])
        if name == "__str__":
            return I.str_(o)
        if name == "__repr__":
            return I.repr_(o)
        return NotImplemented

    def pred(self, I, name, t, tg):
        def one(tag):
            lo = lambda: z3.If(OInt.is_onone(Val.rlo(t)), 0, OInt.oval(Val.rlo(t)))
            if name == "isFinite":
                return z3.Not(OInt.is_onone(Val.rhi(t))) if tag == "range" else TRUE
            if tag == "nil":
                e = TRUE
            elif tag == "scalar":
                if name == "__bool__":
                    return z3.simplify(z3.And(I.slen(Val.sv(t) if L.cons_tag(t) is None else t.arg(0)) > 0,
                                              z3.Not(L.zeroForm(Val.sv(t)))))
                e = I.slen(Val.sv(t) if L.cons_tag(t) is None else t.arg(0)) == 0
            elif tag == "pattern":
                e = I.slen(Val.praw(t) if L.cons_tag(t) is None else t.arg(0)) == 0
            elif tag == "list":
                e = I.slen(Val.items(t) if L.cons_tag(t) is None else t.arg(0)) == 0
            elif tag == "range":
                e = z3.And(z3.Not(OInt.is_onone(Val.rhi(t))), OInt.oval(Val.rhi(t)) <= lo())
            elif tag == "block":
                e = z3.And(I.slen(Val.bstmts(t)) == 0, L.is_tag(Val.bret(t), "nil"))
            return z3.Not(e) if name == "__bool__" else e
        lst = sorted(tg & L.PIPTAGS)
        if len(lst) > 1 and name == "__bool__":
            return L.truthy(t)
        r = one(lst[-1])
        for tag in lst[:-1]:
            r = z3.If(L.is_tag(t, tag), one(tag), r)
        return r

    def copy_value(self, I, o):
        """Contract of copy(): an equal value with a fresh identity."""
        P = self.P
        t = I.box(o)
        d = o if isinstance(o, Dyn) else Dyn(t)
        (tag,) = I.tags(d)
        if tag == "nil":
            return Dyn(Val.Nil)
        if tag == "scalar":
            return I.new_obj(P.Scalar, {"_value": I.field_of(d, tag, "_value")})
        if tag == "list":
            # a new list of copies: sharing of the (frozen) items is invisible
            src = o.fields["_value"] if isinstance(o, Obj) else None
            if src is not None and src.items is not None:
                return I.new_obj(P.List, {"_value": I.new_plist(
                    [I.call(I.get_attribute(x, "copy"), [], {}) for x in src.items])})
            s = I.seq_of(d)
            return I.new_obj(P.List, {"_value": I.new_plist(seq=s)})
        if tag == "range":
            x = d.t
            return Dyn(x)
        return Dyn(t)

    def str_of_pip(self, I, v):
        t = v.t if isinstance(v, Dyn) else I.box(v)
        if L.cons_tag(t) == "scalar":
            return t.arg(0)
        tg = I.tags(Dyn(t))
        if tg == {"pattern"} and L.cons_tag(t):
            return t.arg(0)
        if tg == {"nil"}:
            return ST.empty
        return L.strOf(t)

    def str_opaque(self, I, d):
        return Sym("str", L.strOf(d.t))

    def str_obj(self, I, o):
        f = I.find_method(o.cls, "__str__")
        if isinstance(f, types.FunctionType):
            return I.call_function(f, [o], {})
        return Sym("str", L.strOf(self.box_obj(I, o)))

    def str_other(self, I, v):
        try:
            t = I.box(v)
        except Unsupported:
            return Sym("str", I.c.fresh("strx", L.Str))
        return Sym("str", L.strOf(t))

    def repr_other(self, I, v):
        try:
            t = I.box(v)
        except Unsupported:
            return Sym("str", I.c.fresh("reprx", L.Str))
        return Sym("str", L.reprOf(t))

    def format_spec(self, I, v, spec):
        if isinstance(v, (int, float, str)) and isinstance(spec, str):
            return format(v, spec)
        t = I.box(v)
        return Sym("str", uf("format", Val, L.Str, L.Str)(t, I.str_term(spec)))

    # -- misc operators -----------------------------------------------------------
    def str_order(self, I, nm, x, y):
        lt = uf("str_lt", L.Str, L.Str, L.B)
        c = I.c
        if x.get_id() == y.get_id():
            return nm in ("le", "ge")
        I.note_pair(x, y)
        # strict total order
        c.define(z3.And(z3.Or(lt(x, y), lt(y, x), x == y), z3.Not(z3.And(lt(x, y), lt(y, x))),
                        z3.Implies(x == y, z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x))))))
        return I.mkbool({"lt": lt(x, y), "le": z3.Not(lt(y, x)), "gt": lt(y, x), "ge": z3.Not(lt(x, y))}[nm])

    def order_other(self, I, nm, a, b):
        if isinstance(a, PList) and isinstance(b, PList):
            lt = uf("list_lt", L.VSeq, L.VSeq, L.B)
            x, y = I.seq_of(a), I.seq_of(b)
            I.note_pair(x, y)
            I.c.define(z3.And(z3.Or(lt(x, y), lt(y, x), x == y), z3.Not(z3.And(lt(x, y), lt(y, x))),
                              z3.Implies(x == y, z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x))))))
            return I.mkbool({"lt": lt(x, y), "le": z3.Not(lt(y, x)), "gt": lt(y, x), "ge": z3.Not(lt(x, y))}[nm])
        return None

    def str_format(self, I, a, b):
        t = I.box(b)
        return Sym("str", uf("percent_format", L.Str, Val, L.Str)(I.str_term(a), t))

    def binop_other(self, I, on, a, b):
        if isinstance(a, PSet) and isinstance(b, PSet) and a.items is not None and b.items is not None:
            raise Unsupported("set operators")
        if isinstance(a, Obj):
            nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(on)
            f = nm and I.find_method(a.cls, nm)
            if f:
                return I.call_function(f, [a, b], {})
        if isinstance(a, re.RegexFlag) or isinstance(b, re.RegexFlag):
            return I.binop(_opnode(on), int(a) if not isinstance(a, Sym) else a,
                           int(b) if not isinstance(b, Sym) else b)
        return None

    def true_div(self, I, x, y):
        return Dyn(Val.PFlt(uf("int_truediv", L.I, L.I, L.Flt)(x, y)))

    def int_op(self, I, on, a, b):
        x, y = I.int_term(a), I.int_term(b)
        if on == "Pow":
            if isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = I.mul(r, x)
                return I.mkint(r)
            if not I.c.branch(y >= 0):
                if not I.c.branch(x != 0):
                    raise PyRaise(ExcObj(ZeroDivisionError))
                return Dyn(Val.PFlt(uf("int_negpow", L.I, L.I, L.Flt)(x, y)))
            return I.mkint(uf("int_pow", L.I, L.I, L.I)(x, y))
        if on in ("LShift", "RShift"):
            if not I.c.branch(y >= 0):
                raise PyRaise(ExcObj(ValueError))
        f = {"BitAnd": "int_and", "BitOr": "int_or", "BitXor": "int_xor", "LShift": "int_shl",
             "RShift": "int_shr"}.get(on)
        if f is None:
            raise Unsupported(f"int operator {on}")
        x, y = I.c.const(x), I.c.const(y)
        if z3.is_int_value(x) and z3.is_int_value(y):
            return I.host_binop(on, x.as_long(), y.as_long())
        t = uf(f, L.I, L.I, L.I)(x, y)
        if on in ("BitAnd", "BitOr", "BitXor"):
            g = uf(f, L.I, L.I, L.I)
            I.c.define(g(x, y) == g(y, x))
            I.c.define(z3.Implies(y == 0, t == (z3.IntVal(0) if on == "BitAnd" else x)))
            I.c.define(z3.Implies(x == 0, t == (z3.IntVal(0) if on == "BitAnd" else y)))
            I.c.define(z3.Implies(x == y, t == (z3.IntVal(0) if on == "BitXor" else x)))
        return I.mkint(t)

    def num_op(self, I, on, x, y):
        if on == "Pow":
            f = uf("n_pow", Val, Val, Val)
            for t in (x, y):        # integers compare as integers
                I.c.define(z3.Implies(L.is_tag(t, "int"), z3.And(
                    L.n_lt(t, Val.PInt(0)) == (Val.ival(t) < 0), L.n_eq(t, Val.PInt(0)) == (Val.ival(t) == 0),
                    L.n_int(t) == Val.ival(t), L.n_eq(Val.PInt(L.n_int(t)), t))))
            k = uf("n_pow_exc", Val, Val, L.I)(x, y)
            zero = z3.And(L.n_eq(x, Val.PInt(0)), L.n_lt(y, Val.PInt(0)))
            # a negative number to a fractional power is a complex number
            cplx = z3.And(L.n_lt(x, Val.PInt(0)), z3.Not(L.n_eq(Val.PInt(L.n_int(y)), y)))
            big = z3.And(k == 1, z3.Or(z3.Not(L.is_tag(x, "int")), z3.Not(L.is_tag(y, "int")), L.n_lt(y, Val.PInt(0))))
            e = I.c.choose([z3.And(z3.Not(zero), z3.Not(cplx), z3.Not(big)), zero, z3.And(z3.Not(zero), cplx),
                            z3.And(z3.Not(zero), z3.Not(cplx), big)])
            if e == 1:
                raise PyRaise(ExcObj(ZeroDivisionError))
            if e == 3:
                raise PyRaise(ExcObj(OverflowError))
            d = Dyn(f(x, y))
            if e == 2:
                I.set_tags(d, {"opq"})
                return d
            I.c.define(z3.Implies(z3.And(L.is_tag(x, "int"), L.is_tag(y, "int"), z3.Not(L.n_lt(y, Val.PInt(0)))),
                                  d.t == Val.PInt(uf("int_pow", L.I, L.I, L.I)(Val.ival(x), Val.ival(y)))))
            I.set_tags(d, L.NUMTAGS)
            return d
        if on == "Div":
            f = uf("n_div", Val, Val, Val)
            t = f(x, y)
            return Dyn(t)
        raise PyRaise(ExcObj(TypeError))

    def num_unary(self, I, nm, t):
        r = uf("n_" + nm, Val, Val)(t)
        I.c.define(L.is_tag(r, "int") == L.is_tag(t, "int"))
        if nm == "neg":
            I.c.define(z3.Implies(L.is_tag(t, "int"), r == Val.PInt(-Val.ival(t))))
        if nm == "abs":
            I.c.define(z3.Implies(L.is_tag(t, "int"), r == Val.PInt(z3.If(Val.ival(t) >= 0, Val.ival(t), -Val.ival(t)))))
        return r

    def arranged_members(self, I, q):
        return arranged(I, q)

    def substr(self, I, cont, x):
        s, p = I.str_term(cont), I.str_term(x)
        if isinstance(x, str) and len(x) == 1:
            j = z3.Int("sj")
            return I.mkbool(uf("str_has", L.Str, L.Str, L.B)(s, p))
        I.c.define(z3.Implies(I.slen(p) == 0, uf("str_has", L.Str, L.Str, L.B)(s, p)))
        return I.mkbool(uf("str_has", L.Str, L.Str, L.B)(s, p))

    def set_len(self, I, v):
        if v.items is not None:
            v = PSet(seq=I.seq_of_items(v.items))
        t = uf("set_len", L.VSeq, L.I)(v.seq)
        I.c.define(z3.And(t >= 0, t <= I.slen(v.seq), z3.Implies(I.slen(v.seq) > 0, t >= 1)))
        return I.mkint(t)

    def dict_contains(self, I, d, k):
        kk = I.dict_key(d, k)
        if kk in d.d:
            return True
        k = I.unbox(k)
        if isinstance(k, Sym) and k.kind == "str":
            fs = []
            for y in d.d:
                if isinstance(y, tuple) and y and y[0] == "sym":
                    raise Unsupported("dict with several symbolic keys")
                if isinstance(y, str):
                    I.note_pair(k.t, I.lit(y))
                    fs.append(k.t == I.lit(y))
            return I.mkbool(z3.Or(*fs)) if fs else False
        if isinstance(k, str) and any(isinstance(y, tuple) and y and y[0] == "sym" for y in d.d):
            raise Unsupported("dict with symbolic keys")
        return False

    def dict_get(self, I, d, k):
        kk = I.dict_key(d, k)
        if kk in d.d:
            return d.d[kk]
        k = I.unbox(k)
        if isinstance(k, Sym) and k.kind == "str":
            keys = [y for y in d.d if isinstance(y, str)]
            conds = [k.t == I.lit(y) for y in keys]
            i = I.c.choose(conds + [z3.Not(z3.Or(*conds)) if conds else TRUE])
            if i < len(keys):
                return d.d[keys[i]]
        raise PyRaise(ExcObj(KeyError))

    def dict_set(self, I, d, k, v):
        if d.frozen:
            raise Unsupported("frame: mutation of a shared dict")
        I.c.setitem(d.d, I.dict_key(d, k), v)
        I.note(("dict", d))

    def host_dict_get(self, I, d, k):
        k = I.unbox(k)
        if isinstance(k, (str, int, float, type(None), tuple, types.FunctionType, type)):
            try:
                return I.lift(d[k])
            except KeyError:
                raise PyRaise(ExcObj(KeyError))
        if isinstance(k, Sym) and k.kind == "str":
            return self.sym_dict_get(I, d, k)
        if isinstance(k, Dyn) and I.tags(k) <= tokstream.TOK and tokstream.table(I, d):
            return tokstream.lookup(I, tokstream.table(I, d), k)
        raise Unsupported("host dict with symbolic key")

    def sym_dict_get(self, I, d, k):
        keys = [x for x in d if isinstance(x, str)]
        conds = [k.t == I.lit(x) for x in keys]
        for x in keys:
            I.note_pair(k.t, I.lit(x))
        i = I.c.choose(conds + [z3.Not(z3.Or(*conds)) if conds else TRUE])
        if i == len(keys):
            raise PyRaise(ExcObj(KeyError))
        return I.lift(d[keys[i]])

    def host_contains(self, I, cont, x):
        x = I.unbox(x)
        if isinstance(x, (str, int, float, type(None), tuple, type, types.FunctionType)):
            return x in cont
        if isinstance(x, Sym) and x.kind in ("str", "int"):
            fs = []
            for y in cont:
                if x.kind == "str" and isinstance(y, str):
                    I.note_pair(x.t, I.lit(y))
                    fs.append(x.t == I.lit(y))
                elif x.kind == "int" and isinstance(y, int):
                    fs.append(x.t == y)
            return I.mkbool(z3.Or(*fs)) if fs else False
        if isinstance(x, Dyn) and I.tags(x) <= tokstream.TOK and tokstream.table(I, cont):
            return tokstream.member(I, tokstream.table(I, cont), x)
        if isinstance(x, Dyn):
            I.resolve(x)
            if I.tags(x) & L.PIPTAGS:
                # hash/eq based lookup of a Pip value in a set of Pip values
                fs = [I.bool_term(I.py_eq(x, I.lift(y))) for y in cont]
                return I.mkbool(z3.Or(*fs)) if fs else False
            return self.host_contains(I, cont, x)
        raise Unsupported("membership in host container")

    def range_slice(self, I, r, s):
        if r.step != 1 or s.step not in (None, 1):
            raise Unsupported("range slicing with a step")
        lo, hi = I.int_term(r.lo), I.int_term(r.hi)
        n = I.iter_view(r)
        nn = n.n if n.items is None else z3.IntVal(len(n.items))
        a = I.clamp(s.start, nn, z3.IntVal(0))
        b = I.clamp(s.stop, nn, nn)
        # CPython: range slicing keeps start/stop offsets
        return RangeV(I.mkint(lo + a), I.mkint(lo + b), 1)

    def step_slice(self, I, s, st, sp, step):
        th = L.theory_of(s.sort())
        step = I.unbox(step)
        if isinstance(step, int) and step == -1:
            n = I.slen(s)

            def norm(x, default):
                x = I.unbox(x)
                if x is None or isinstance(x, Dyn) and I.has_tag(x, {"none"}):
                    return default
                t = I.int_term(x)
                if I.c.branch(t < 0):
                    return z3.IntVal(-1) if I.c.branch(t + n < 0) else z3.simplify(t + n)
                return z3.simplify(n - 1) if I.c.branch(t >= n) else t
            a, b = norm(st, n - 1), norm(sp, z3.IntVal(-1))
            r = I.mkslice(s, z3.simplify(b + 1), z3.simplify(a + 1), n)
            return r if r.get_id() == th.empty.get_id() else th.rev(r)
        if not (isinstance(step, int) and step > 0) and not isinstance(step, Sym):
            raise Unsupported("slice step")
        n = I.slen(s)
        stt = I.int_term(step)
        if not I.c.branch(stt != 0):
            raise PyRaise(ExcObj(ValueError))
        if not I.c.branch(stt > 0):
            if st is None and sp is None and I.c.branch(stt == -1):
                return th.rev(s)
            return uf(th.name + "_negstep", s.sort(), L.I, s.sort())(s, stt)
        a = I.clamp(st, n, z3.IntVal(0))
        b = I.clamp(sp, n, n)
        if not I.c.branch(a < b):
            return th.empty
        f = uf(th.name + "_step", s.sort(), L.I, L.I, L.I, s.sort())
        r = f(s, a, b, stt)
        c = I.c
        j = z3.Int("ss!j")
        ln = L.fdiv(b - a - 1, stt) + 1
        c.define(th.len(r) == ln)
        c.define(z3.Implies(ln >= 1, z3.And(L.imul(ln - 1, stt) <= b - a - 1, L.imul(ln, stt) >= b - a)))
        c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(
            th.at(r, j) == th.at(s, a + L.imul(j, stt)), L.imul(j, stt) <= b - a - 1)), patterns=[th.at(r, j)]))
        return r

    def match_group(self, I, m, args):
        args = [I.unbox(a) for a in args] or [0]
        if len(args) > 1:
            return tuple(self.match_group(I, m, [a]) for a in args)
        g = args[0]
        if g == 0:
            return I.mkstr(I.mkslice(m.subject, m.start, m.end, I.slen(m.subject)))
        has = uf(f"grp_has!{m.key}!{g}", L.Str, L.I, L.B)(m.subject, m.start)
        if not I.c.branch(has):
            return None
        return Sym("str", uf(f"grp!{m.key}!{g}", L.Str, L.I, L.Str)(m.subject, m.start))

    def class_attr(self, I, o, a, name):
        if a is object.__getattribute__:
            return functools.partial(getattr, o)
        if isinstance(a, types.MemberDescriptorType):
            raise PyRaise(ExcObj(AttributeError))
        if isinstance(a, (int, str, float, bool, type(None), tuple)):
            return a
        if isinstance(a, types.FunctionType):
            return BoundMethod(o, a, name)
        if isinstance(o, Dyn):
            raise Unsupported(f"attribute {name}")
        return I.lift(a)

    def attr_other(self, I, o, name):
        """Methods of Python built-in values."""
        if isinstance(o, (str, Sym)) and (isinstance(o, str) or o.kind == "str"):
            return HostMethod(o, "str", name)
        if isinstance(o, PList):
            return HostMethod(o, "list", name)
        if isinstance(o, (tuple, PTuple)):
            return HostMethod(o, "tuple", name)
        if isinstance(o, PDict):
            return HostMethod(o, "dict", name)
        if isinstance(o, PSet):
            return HostMethod(o, "set", name)
        if isinstance(o, (MatchV,)):
            return HostMethod(o, "match", name)
        if isinstance(o, (re.Pattern, RegexV)):
            if name in ("pattern", "flags") and isinstance(o, re.Pattern):
                return getattr(o, name)
            return HostMethod(o, "regex", name)
        if isinstance(o, (int, float)) or isinstance(o, Sym):
            return HostMethod(o, "num", name)
        if isinstance(o, dict):
            return HostMethod(o, "hostdict", name)
        if isinstance(o, GenObj):
            return HostMethod(o, "gen", name)
        if o is None:
            raise PyRaise(ExcObj(AttributeError))
        if type(o).__module__ in self.repo_modules:
            try:
                a = getattr(o, name)
            except AttributeError:
                raise PyRaise(ExcObj(AttributeError))
            if isinstance(a, types.MethodType):
                return BoundMethod(o, a.__func__, name)
            return I.lift(a)
        if isinstance(o, (random.Random,)) or not isinstance(o, (Closure, BoundMethod, ExcObj, TypeOf)):
            try:
                return getattr(o, name)
            except AttributeError:
                raise PyRaise(ExcObj(AttributeError))
        if isinstance(o, (Closure, BoundMethod)) and name in ("__name__", "__qualname__"):
            return o.name
        if isinstance(o, TypeOf):
            return "?"
        raise PyRaise(ExcObj(AttributeError))

    # -- calls -------------------------------------------------------------------
    def call_host(self, I, f, args, kwargs):
        if isinstance(f, HostMethod):
            return host_method(self, I, f, args, kwargs)
        if isinstance(f, tokstream.TokMethod):
            return tokstream.call(I, f, args, kwargs)
        if isinstance(f, (host.OptMethod, host.FileMethod)):
            return host.call(I, f, args, kwargs)
        if isinstance(f, effects.DynMethod):
            kind = next((k for k in ("op", "cmd") if k in I.target.effects), None)
            if kwargs or kind is None:
                raise Unsupported("call of an unknown method")
            return effects.call(I, kind, [f.name] + list(args))
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(I, args, kwargs)
        if isinstance(f, types.MethodType):
            return I.call_function(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return I.call(f.func, list(f.args) + list(args), kw)
        prim = lambda v: isinstance(v, (int, float, str, bool, type(None)))
        if f in PURE and all(prim(a) for a in args) and all(prim(a) for a in kwargs.values()):
            try:
                return I.lift(f(*args, **kwargs))
            except Exception as e:
                raise PyRaise(ExcObj(type(e)))
        if f in PURE_NUM:
            return pure_num(self, I, f, args)
        if isinstance(f, TypeOf):
            I.resolve(f.dyn)
            return I.call(I.class_of(f.dyn), args, kwargs)
        if f == sys.stdout.flush:
            return None
        raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r:.60}")

    def apply_contract(self, I, con, fn, args, kwargs):
        if con.inline:
            return NotImplemented
        return con.apply(I, fn, args, kwargs)


class HostMethod:
    __slots__ = ("o", "kind", "name")

    def __init__(self, o, kind, name):
        self.o, self.kind, self.name = o, kind, name


PURE = {math.sqrt, math.sin, math.cos, math.tan, math.exp, math.log, math.floor, math.ceil, math.gcd,
        chr, ord, abs, round, divmod, pow, hash}
PURE_NUM = {math.sqrt, math.sin, math.cos, math.tan, math.asin, math.acos, math.atan, math.exp, math.log,
            math.log10, math.log2, math.floor, math.ceil, math.atan2, math.degrees, math.radians, math.pi,
            math.gcd, math.factorial, math.isqrt, math.comb, math.remainder, math.trunc}


def arranged(I, q):
    """The members of the set of a sequence of integers in some order."""
    from .loops import set_stags
    t = uf("arranged", L.VSeq, L.VSeq)(q)
    e = z3.Const("e!%d" % len(I.c.generics), Val)
    I.c.define(z3.ForAll([e], SQ.has(t, e) == SQ.has(q, e), patterns=[SQ.has(t, e)]))
    I.c.define(SQ.len(t) <= SQ.len(q))
    set_stags(I, t, frozenset(["int"]))
    return t


def pure_num(w, I, f, args):
    """A deterministic numeric library function: uninterpreted, may raise
    ValueError / OverflowError on a set it determines itself."""
    if f in (math.floor, math.ceil, math.trunc):
        a = I.unbox(args[0])
        if isinstance(a, int) and not isinstance(a, bool) or isinstance(a, Sym) and a.kind == "int":
            return a            # of an integer: itself
    ts = [I.num_term(I.unbox(a)) for a in args]
    nm = "math_" + f.__name__
    k = uf(nm + "_exc", *([Val] * len(ts) + [L.I]))(*ts)
    t = uf(nm, *([Val] * len(ts) + [Val]))(*ts)
    if f in (math.floor, math.ceil, math.trunc):
        I.c.define(z3.Implies(L.is_tag(ts[0], "int"), z3.And(t == ts[0], k == 0)))
    e = I.c.choose([z3.And(k != 1, k != 2), k == 1, k == 2])
    if e == 1:
        raise PyRaise(ExcObj(ValueError))
    if e == 2:
        raise PyRaise(ExcObj(OverflowError))
    I.c.define(z3.Or(L.is_tag(t, "int"), L.is_tag(t, "flt")))
    I.set_tags(Dyn(t), {"int"} if f in (math.floor, math.ceil, math.trunc, math.gcd, math.factorial, math.isqrt)
               else {"flt"})
    return I.unbox(Dyn(t))


def _opnode(on):
    return getattr(ast, on)()


STRF = {"upper": 0, "lower": 0, "strip": 0, "lstrip": 0, "rstrip": 0, "replace": 2, "title": 0, "swapcase": 0,
        "capitalize": 0, "zfill": 1, "ljust": 1, "rjust": 1, "center": 1, "removeprefix": 1, "removesuffix": 1}
STRP = {"startswith", "endswith", "isdigit", "isalpha", "isupper", "islower", "isspace", "isalnum", "isnumeric",
        "isdecimal"}


def host_method(w, I, hm, args, kwargs):
    o, nm = hm.o, hm.name
    c = I.c
    kind = hm.kind
    args = [I.unbox(a) for a in args]
    prim = lambda v: isinstance(v, (int, float, str, bool, type(None)))
    if kind == "str":
        if isinstance(o, str) and all(prim(a) for a in args) and not kwargs and nm != "join":
            try:
                return I_lift(I, getattr(o, nm)(*args))
            except (ValueError, IndexError, TypeError, AttributeError) as e:
                raise PyRaise(ExcObj(type(e)))
        return str_method(w, I, o, nm, args, kwargs)
    if kind == "list":
        return list_method(w, I, o, nm, args, kwargs)
    if kind == "tuple":
        if nm == "count":
            return list_method(w, I, I.new_plist(seq=I.seq_of(o)), nm, args, kwargs)
        if nm == "index":
            return list_method(w, I, I.new_plist(seq=I.seq_of(o)), nm, args, kwargs)
    if kind == "dict":
        if nm == "get":
            k = I.dict_key(o, args[0])
            return o.d.get(k, args[1] if len(args) > 1 else None)
        if nm == "keys":
            return GenObj(items=list(o.d))
        if nm == "values":
            return GenObj(items=list(o.d.values()))
        if nm == "items":
            return GenObj(items=list(o.d.items()))
        if nm == "copy":
            d = PDict(dict(o.d))
            I.c.serial += 1
            d.serial = I.c.serial
            return d
        if nm == "update":
            for k, v in args[0].d.items():
                I.c.setitem(o.d, k, v)
            return None
    if kind == "rxmatch":
        return rxmod.match_method(w, I, o, nm, args, kwargs)
    if kind == "hostdict":
        if nm == "get":
            k = args[0]
            if prim(k):
                return I.lift(o.get(k, args[1] if len(args) > 1 else None))
            if isinstance(k, Sym) and k.kind == "str":
                try:
                    return w.sym_dict_get(I, o, k)
                except PyRaise:
                    return args[1] if len(args) > 1 else None
        if nm in ("items", "keys", "values"):
            return GenObj(items=[I.lift(x) for x in getattr(o, nm)()])
    if kind == "match":
        if nm == "group":
            return w.match_group(I, o, args)
        if nm == "end" and not args:
            return I.mkint(o.end)
        if nm == "start" and not args:
            return I.mkint(o.start)
        if nm == "span" and not args:
            return (I.mkint(o.start), I.mkint(o.end))
        raise Unsupported(f"match.{nm}")
    if kind == "regex":
        return regex_method(w, I, o, nm, args, kwargs)
    if kind == "set":
        raise Unsupported(f"set.{nm}")
    if kind == "num":
        if nm == "is_integer":
            t = I.num_term(o)
            return I.mkbool(uf("n_is_integer", Val, L.B)(t))
        if nm == "bit_length" and not args and I.is_int_like(o):
            return I.mkint(uf("bit_length", L.I, L.I)(I.int_term(o)))
    raise Unsupported(f"{kind}.{nm}")


def I_lift(I, v):
    if isinstance(v, list):
        return I.new_plist([I_lift(I, x) for x in v])
    if isinstance(v, tuple):
        return tuple(I_lift(I, x) for x in v)
    return v


def str_method(w, I, o, nm, args, kwargs):
    s = I.str_term(o)
    c = I.c
    if nm == "join":
        return str_join(w, I, s, args[0])
    sorts, ts = [], []
    for a in args:
        if isinstance(a, Dyn):
            I.resolve(a)
            a = I.unbox(a)
        if I.is_str_like(a):
            sorts.append(L.Str)
            ts.append(I.str_term(a))
        elif I.is_int_like(a):
            sorts.append(L.I)
            ts.append(I.int_term(a))
        elif a is None:
            sorts.append(Val)
            ts.append(Val.PNone)
        else:
            if nm in STRP or nm in ("count", "index", "find", "replace", "split"):
                if isinstance(a, (Dyn, Obj)):
                    raise PyRaise(ExcObj(TypeError))
            raise Unsupported(f"str.{nm} argument {a!r:.40}")
    key = f"str_{nm}_{len(ts)}"
    if nm in STRF:
        t = uf(key, L.Str, *sorts, L.Str)(s, *ts)
        if nm in ("upper", "lower") and False:
            pass
        if nm in ("lstrip", "rstrip", "strip"):
            # trimming never lengthens
            c.define(ST.len(t) <= ST.len(s))
            if nm == "lstrip" and not ts:
                i = z3.Int("ls!i")
                c.define(z3.Implies(ST.len(s) == 0, t == s))
        return Sym("str", t)
    if nm in STRP:
        if nm in ("startswith", "endswith") and len(ts) == 1:
            p = ts[0]
            n, m = I.slen(s), I.slen(p)
            f = uf(key, L.Str, L.Str, L.B)(s, p)
            if isinstance(args[0], str):
                txt = args[0]
                off = z3.IntVal(0) if nm == "startswith" else n - m
                eqs = [n >= len(txt)] + [ST.at(s, z3.simplify(off + i)) == ord(ch) for i, ch in enumerate(txt)]
                return I.mkbool(z3.And(*eqs))
            return I.mkbool(f)
        return I.mkbool(uf(key, L.Str, *sorts, L.B)(s, *ts))
    if nm == "count":
        t = uf(key, L.Str, *sorts, L.I)(s, *ts)
        c.define(t >= 0)
        return I.mkint(t)
    if nm in ("index", "find"):
        t = uf(f"str_find_{len(ts)}", L.Str, *sorts, L.I)(s, *ts)
        c.define(z3.And(t >= -1, t <= ST.len(s)))
        if nm == "index":
            if not c.branch(t >= 0):
                raise PyRaise(ExcObj(ValueError))
        return I.mkint(t)
    if nm in ("split", "splitlines"):
        if nm == "split" and ts and ts[0].sort() == L.Str:
            if not c.branch(I.slen(ts[0]) != 0):
                raise PyRaise(ExcObj(ValueError))
        t = uf(key, L.Str, *sorts, L.VSeq)(s, *ts)
        st_elems(I, t, {"str"})
        if nm == "split" and ts:
            c.define(SQ.len(t) >= 1)
        return I.new_plist(seq=t)
    if nm in ("isidentifier",):
        return I.mkbool(uf(key, L.Str, L.B)(s))
    if nm == "translate":
        raise Unsupported("str.translate")
    if nm == "format":
        raise Unsupported("str.format")
    if nm == "copy":
        raise PyRaise(ExcObj(AttributeError))
    if not hasattr(str, nm):
        raise PyRaise(ExcObj(AttributeError))
    if nm == "encode" and host.has(I, "scan") and [I.unbox(a) for a in args] in ([], ["utf-8"], ["utf8"]) and not kwargs:
        q = uf("utf8", L.Str, L.VSeq)(s)
        I.c.keep.append(q)
        I.c.setitem(I.c.memo, ("stags", q.get_id()), frozenset(["int"]))
        p = I.new_plist(seq=q)
        p.frozen = True
        return p
    raise Unsupported(f"str.{nm}")


def st_elems(I, t, tags):
    from .loops import set_stags
    set_stags(I, t, frozenset(tags))


def str_join(w, I, sep, it):
    c = I.c
    g = I.iter_view(it)
    if g.items is None and g.n is not None and z3.is_int_value(z3.simplify(g.n)) and z3.simplify(g.n).as_long() <= 200:
        g = GenObj(items=[g.elem(z3.IntVal(i)) for i in range(z3.simplify(g.n).as_long())])
    if g.items is not None:
        if all(isinstance(I.unbox(x), str) for x in g.items) and (not g.items[1:] or sep.get_id() == ST.empty.get_id()):
            return "".join(I.unbox(x) for x in g.items)
        t = ST.empty
        for i, x in enumerate(g.items):
            x = I.unbox(x)
            if isinstance(x, Dyn):
                I.resolve(x)
                x = I.unbox(x)
            if not I.is_str_like(x):
                raise PyRaise(ExcObj(TypeError))
            if i:
                t = I.cat(t, sep)
            t = I.cat(t, I.str_term(x))
        return I.mkstr(t)
    s = I.seq_of(g)
    if sep.get_id() == ST.empty.get_id():
        t = join_chars(I, s)
        if t is not None:
            return I.mkstr(t)
    f = uf("str_join", L.Str, L.VSeq, L.Str)
    t = f(sep, s)
    # join of one-character strings has as many characters as pieces
    j = z3.Int("jn!j")
    if sep.get_id() == ST.empty.get_id():
        allunit = uf("allunit", L.VSeq, L.B)
        wit = uf("allunit_w", L.VSeq, L.I)(s)
        c.define(z3.Or(allunit(s), z3.And(0 <= wit, wit < SQ.len(s), ST.len(Val.strv(SQ.at(s, wit))) != 1)))
        c.define(z3.Implies(allunit(s), ST.len(t) == SQ.len(s)))
        c.define(z3.ForAll([j], z3.Implies(z3.And(allunit(s), 0 <= j, j < SQ.len(s)),
                 ST.at(t, j) == ST.at(Val.strv(SQ.at(s, j)), 0)), patterns=[ST.at(t, j)]))
    c.define(z3.Implies(SQ.len(s) == 0, t == ST.empty))
    return Sym("str", t)


def join_chars(I, s):
    """"".join of pieces of a list of the characters of a string, or None."""
    x = I.c.memo.get(("chars", s.get_id()))
    if x is not None:
        return x
    if not z3.is_app(s):
        return None
    d = s.decl()
    if d.eq(SQ.empty.decl()):
        return ST.empty
    if d.eq(SQ.unit) and L.cons_tag(s.arg(0)) == "str":
        return s.arg(0).arg(0)
    if d.eq(SQ.cat):
        a, b = join_chars(I, s.arg(0)), join_chars(I, s.arg(1))
        return None if a is None or b is None else I.cat(a, b)
    x = I.c.memo.get(("chars", s.arg(0).get_id())) if s.num_args() else None
    if x is not None and d.eq(SQ.slice):
        return ST.slice(x, s.arg(1), s.arg(2))
    if x is not None and d.eq(SQ.upd) and L.cons_tag(s.arg(2)) == "str":
        k = s.arg(1)
        return I.cat(I.cat(ST.slice(x, z3.IntVal(0), k), s.arg(2).arg(0)), ST.slice(x, k + 1, I.slen(x)))
    return None


def list_method(w, I, o, nm, args, kwargs):
    c = I.c
    if o.cls is set and nm not in ("add", "__contains__"):
        raise Unsupported(f"set.{nm}")
    if nm == "append" or nm == "add" and o.cls is set:
        I.list_append(o, args[0])
        return None
    if nm == "extend":
        I.list_extend(o, args[0])
        return None
    if nm == "insert":
        I.list_insert(o, args[0], args[1])
        return None
    if nm == "appendleft":
        I.list_insert(o, 0, args[0])
        return None
    if nm == "extendleft":
        raise Unsupported("extendleft")
    if nm == "pop":
        return I.list_pop(o, args[0] if args else -1)
    if nm == "popleft":
        return I.list_pop(o, 0)
    if nm == "copy" or nm == "__copy__":
        return I.new_plist(list(o.items) if o.items is not None else None, o.seq)
    if nm == "clear":
        I.set_plist(o, [], None)
        return None
    if nm == "reverse":
        if o.items is not None:
            I.set_plist(o, list(reversed(o.items)), None)
        else:
            I.set_plist(o, None, SQ.rev(o.seq))
        return None
    if nm == "__setitem__":
        I.set_item(o, args[0], args[1])
        return None
    if nm == "__getitem__":
        return I.get_item(o, args[0])
    if nm == "__len__":
        return I.len_(o)
    if nm == "__contains__":
        return I.contains(o, args[0])
    if nm == "count":
        f = uf("list_count", L.VSeq, Val, L.I)
        s, x = I.seq_of(o), I.box(args[0])
        t = f(s, x)
        c.define(z3.And(t >= 0, t <= SQ.len(s), (t > 0) == SQ.has(s, x)))
        return I.mkint(t)
    if nm == "index":
        s, x = I.seq_of(o), I.box(args[0])
        st = I.int_term(args[1]) if len(args) > 1 else z3.IntVal(0)
        n = I.slen(s)
        a = I.clamp(args[1] if len(args) > 1 else None, n, z3.IntVal(0))
        f = uf("list_index", L.VSeq, Val, L.I, L.I)
        t = f(s, x, a)
        j = z3.Int("ix!j")
        found = t >= 0
        c.define(z3.And(t >= -1, t < n))
        c.define(z3.Implies(found, z3.And(t >= a, SQ.at(s, t) == x)))
        c.define(z3.ForAll([j], z3.Implies(z3.And(a <= j, j < n, z3.Or(t < 0, j < t)), SQ.at(s, j) != x),
                           patterns=[SQ.at(s, j)]))
        if not c.branch(found):
            raise PyRaise(ExcObj(ValueError))
        return I.mkint(t)
    if nm == "remove":
        raise Unsupported("list.remove")
    if nm == "sort":
        r = m_sorted(I, [o], kwargs)
        I.set_plist(o, r.items, r.seq)
        return None
    if nm == "rotate":
        raise Unsupported("rotate")
    if not hasattr(list, nm) and not hasattr(collections.deque, nm):
        raise PyRaise(ExcObj(AttributeError))
    raise Unsupported(f"list.{nm}")


def regex_method(w, I, rx, nm, args, kwargs):
    if isinstance(rx, RegexV):
        return rxmod.method(w, I, rx, nm, args, kwargs)
    c = I.c
    subj = args[0]
    if isinstance(subj, Dyn):
        I.resolve(subj)
        subj = I.unbox(subj)
    if isinstance(subj, str) and all(isinstance(a, (int, str)) for a in args) and not kwargs:
        if nm in ("match", "fullmatch", "search"):
            m = getattr(rx, nm)(*args)
            return HostMatch(m) if m else None
        if nm in ("sub",):
            return getattr(rx, nm)(*args)
    if not I.is_str_like(subj) and nm != "sub":
        raise PyRaise(ExcObj(TypeError))
    key = regex_key(rx)
    if nm in ("match", "fullmatch") and (len(args) == 1 or I.is_int_like(args[1])):
        s = I.str_term(subj)
        if len(args) > 1:
            p = I.clamp(args[1], I.slen(s), z3.IntVal(0))
        else:
            p = z3.IntVal(0)
        ok = uf(f"{nm}!{key}", L.Str, L.I, L.B)(s, p)
        end = uf(f"{nm}_end!{key}", L.Str, L.I, L.I)(s, p)
        c.define(z3.Implies(ok, z3.And(end >= p, end <= ST.len(s))))
        w.regex_facts(I, rx, key, nm, s, p, ok, end)
        if not c.branch(ok):
            return None
        return MatchV(key, s, p, end)
    if nm == "search" and len(args) == 1:
        s = I.str_term(subj)
        ok = uf(f"search!{key}", L.Str, L.B)(s)
        st = uf(f"search_st!{key}", L.Str, L.I)(s)
        end = uf(f"search_end!{key}", L.Str, L.I)(s)
        c.define(z3.Implies(ok, z3.And(0 <= st, st <= end, end <= ST.len(s))))
        if not c.branch(ok):
            return None
        return MatchV(key, s, st, end)
    raise Unsupported(f"regex.{nm}")


class HostMatch:
    def __init__(self, m):
        self.m = m


def regex_facts(self, I, rx, key, nm, s, p, ok, end):
    """Facts about particular regular expressions (see regexlemmas.py)."""
    for fn in getattr(self, "regex_lemmas", ()):
        fn(I, rx, key, nm, s, p, ok, end)


World.regex_facts = regex_facts


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------
def key_seq(I, g, key):
    """The keys of the elements, computed once each in order."""
    if g.items is not None:
        return I.seq_of(I.new_plist([I.call(key, [x], {}) for x in g.items]))
    if key is str:
        key = I.str_
        call = lambda x: I.str_(x)
    else:
        call = lambda x: I.call(key, [x], {})
    out = I.new_plist([])
    I.loop(g, lambda x: I.list_append(out, call(x)))
    return I.seq_of(out)


def orderable(I, keys):
    """Comparing elements that are not all numbers or all strings may fail."""
    tg = I.seq_tags(keys)
    if tg is not None and (tg <= {"int", "flt", "bool"} or tg <= {"str"}):
        return
    if not I.c.branch(uf("orderable", L.VSeq, L.B)(keys)):
        raise PyRaise(ExcObj(TypeError))


def m_sorted(I, args, kwargs):
    g = I.iter_view(args[0])
    key = kwargs.get("key")
    rev = kwargs.get("reverse", False)
    s = I.seq_of(g)
    if key is not None:
        keys = key_seq(I, g, key)
        orderable(I, keys)
        # stable sort by a key: an uninterpreted function of the items and their keys
        t = uf("sorted_by", L.VSeq, L.VSeq, L.B, L.VSeq)(s, keys, I.bool_term(rev))
    else:
        orderable(I, s)
        t = uf("sorted", L.VSeq, L.B, L.VSeq)(s, I.bool_term(rev))
    I.c.define(SQ.len(t) == I.slen(s))
    tg = I.seq_tags(s)
    st_elems(I, t, tg) if tg is not None else None
    return I.new_plist(seq=t)


def install_models(w):
    M = w.models
    P = w.P

    def model(f):
        def d(g):
            M[f] = g
            return g
        return d

    err = w.modules["errors"]

    # diagnostics: messages go to stderr and are not part of any property
    @model(err.rewritePtypes)
    def _(I, a, k):
        return Sym("str", I.c.fresh("message", L.Str))

    @model(err.ErrorReporter.warn)
    def _(I, a, k):
        return None

    @model(err.ErrorReporter.die)
    def _(I, a, k):
        raise PyRaise(ExcObj(k.get("errorClass", err.FatalError)))

    @model(len)
    def _(I, a, k):
        return I.len_(a[0])

    @model(isinstance)
    def _(I, a, k):
        return I.isinstance_(a[0], a[1])

    @model(issubclass)
    def _(I, a, k):
        if isinstance(a[0], type):
            return issubclass(a[0], a[1])
        raise Unsupported("issubclass")

    @model(type)
    def _(I, a, k):
        v = I.unbox(a[0])
        c = I.class_of(v)
        if c is None:
            return TypeOf(v)
        return c

    @model(str)
    def _(I, a, k):
        return I.str_(a[0]) if a else ""

    @model(repr)
    def _(I, a, k):
        return I.repr_(a[0])

    @model(bool)
    def _(I, a, k):
        return I.mkbool(I.bool_term(a[0])) if a else False

    @model(int)
    def _(I, a, k):
        if not a:
            return 0
        v = I.unbox(a[0])
        if len(a) == 2:
            if isinstance(v, str) and isinstance(a[1], int):
                try:
                    return int(v, a[1])
                except ValueError:
                    raise PyRaise(ExcObj(ValueError))
            if v == "0" and isinstance(v, str) and I.c.entails(z3.And(I.int_term(a[1]) >= 2, I.int_term(a[1]) <= 36)):
                return 0
            s, b = I.str_term(v), I.int_term(a[1])
            if not I.c.branch(uf("int_base_ok", L.Str, L.I, L.B)(s, b)):
                raise PyRaise(ExcObj(ValueError))
            return I.mkint(uf("int_base", L.Str, L.I, L.I)(s, b))
        if isinstance(v, Dyn) and not I.is_num_dyn(v):
            if len(I.tags(v)) > 1:
                I.resolve(v)
                v = I.unbox(v)
        if isinstance(v, (int, float, str)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(ExcObj(type(e)))
        if I.is_int_like(v):
            return I.mkint(I.int_term(v))
        if I.is_flt_like(v) or I.is_num_dyn(v):
            return I.mkint(L.n_int(I.num_term(v)))
        if I.is_str_like(v):
            t = I.str_term(v)
            ok = uf("int_ok", L.Str, L.B)(t)
            val = uf("int_of", L.Str, L.I)(t)
            w.int_facts(I, t, ok, val)
            if not I.c.branch(ok):
                raise PyRaise(ExcObj(ValueError))
            return I.mkint(val)
        if isinstance(v, (Obj, Dyn)):
            f = I.find_method(I.class_of(v), "__int__")
            if f is None:
                raise PyRaise(ExcObj(TypeError))
            return I.call(BoundMethod(v, f, "__int__"), [], {})
        raise PyRaise(ExcObj(TypeError))

    @model(float)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, (int, float, str)):
            try:
                return float(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(ExcObj(type(e)))
        if I.is_flt_like(v):
            return v
        if I.is_str_like(v):
            t = I.str_term(v)
            ok = uf("float_ok", L.Str, L.B)(t)
            if not I.c.branch(ok):
                raise PyRaise(ExcObj(ValueError))
            return Sym("flt", uf("float_of", L.Str, L.Flt)(t))
        if I.is_int_like(v) or I.is_num_dyn(v):
            return Sym("flt", uf("n_float", Val, L.Flt)(I.num_term(v)))
        raise PyRaise(ExcObj(TypeError))

    @model(list)
    def _(I, a, k):
        return I.to_plist(a[0]) if a else I.new_plist([])

    @model(collections.deque)
    def _(I, a, k):
        p = I.to_plist(a[0], hint=False) if a else I.new_plist([])
        p.cls = collections.deque
        return p

    @model(tuple)
    def _(I, a, k):
        if not a:
            return ()
        p = I.to_plist(a[0])
        return tuple(p.items) if p.items is not None else PTuple(p.seq)

    @model(set)
    def _(I, a, k):
        if not a:
            return I.new_plist([], cls=set)      # a growing set: its insertions, with repetitions
        p = I.to_plist(a[0], hint=False)
        return PSet(p.items, p.seq)

    @model(dict)
    def _(I, a, k):
        d = PDict(dict(k))
        I.c.serial += 1
        d.serial = I.c.serial
        if a:
            g = I.iter_view(a[0]) if not isinstance(a[0], PDict) else GenObj(items=list(a[0].d.items()))
            if g.items is None:
                raise Unsupported("dict of symbolic sequence")
            for kv in g.items:
                d.d[I.dict_key(d, kv[0])] = kv[1]
        return d

    @model(range)
    def _(I, a, k):
        a = [I.unbox(x) for x in a]
        for i, x in enumerate(a):
            if isinstance(x, Dyn):
                I.resolve(x)
                a[i] = x = I.unbox(x)
            if not I.is_int_like(x):
                raise PyRaise(ExcObj(TypeError))
        if len(a) == 1:
            return RangeV(0, a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        if isinstance(a[2], int) and a[2] == 0:
            raise PyRaise(ExcObj(ValueError))
        return RangeV(a[0], a[1], a[2])

    @model(slice)
    def _(I, a, k):
        if len(a) == 1:
            return SliceV(None, a[0])
        return SliceV(*a)

    @model(iter)
    def _(I, a, k):
        return I.iter_view(a[0])

    @model(reversed)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, RangeV) and v.step == 1:
            lo, hi = I.int_term(v.lo), I.int_term(v.hi)
            return I.iter_view(RangeV(I.mkint(hi - 1), I.mkint(lo - 1), -1))
        if isinstance(v, (PList, PTuple, tuple, str)) or (isinstance(v, Sym) and v.kind == "str"):
            g = I.iter_view(v)
        elif isinstance(v, (Dyn, Obj)):
            if isinstance(v, Dyn):
                I.resolve(v)
            # sequence protocol: __len__ and __getitem__ required
            cls = I.class_of(v)
            if I.find_method(cls, "__len__") is None or I.find_method(cls, "__getitem__") is None:
                raise PyRaise(ExcObj(TypeError))
            g = I.iter_view(v)
            if g.items is None and g.n is None:
                raise PyRaise(ExcObj(ValueError))
        elif isinstance(v, GenObj):
            raise PyRaise(ExcObj(TypeError))
        else:
            raise Unsupported("reversed")
        if g.items is not None:
            return GenObj(items=list(reversed(g.items)))
        if g.seq is not None:
            s = SQ.rev(g.seq)
            return GenObj(n=g.n, elem=lambda i: I.seq_elem(s, i), seq=s)
        return GenObj(n=g.n, elem=lambda i: g.elem(g.n - 1 - i))

    @model(enumerate)
    def _(I, a, k):
        g = I.iter_view(a[0])
        st = a[1] if len(a) > 1 else k.get("start", 0)
        if g.items is not None and isinstance(st, int):
            return GenObj(items=[(i, x) for i, x in enumerate(g.items, st)])
        s0 = I.int_term(st)
        if g.items is not None:
            return GenObj(items=[(I.mkint(s0 + i), x) for i, x in enumerate(g.items)])
        return GenObj(n=g.n, elem=lambda i: (I.mkint(s0 + i), g.elem(i)))

    @model(zip)
    def _(I, a, k):
        gs = []
        for x in a:
            if isinstance(x, E.StarArg):
                return w.zip_star(I, x.gen)
            gs.append(I.iter_view(x))
        if all(g.items is not None for g in gs):
            return GenObj(items=list(zip(*[g.items for g in gs])), pytype="zip")
        short = [len(g.items) for g in gs if g.items is not None]
        if short and 0 < min(short) <= 8 and not isinstance(I.target, type(None)) and I.target.split_zip:
            # one side is a known short sequence: fork over the length
            m = min(short)
            ns = [g.n for g in gs if g.items is None and g.n is not None]
            if len(ns) == 1:
                j = I.c.choose([ns[0] == i for i in range(m)] + [ns[0] >= m])
                el_ = lambda g, i: g.items[i] if g.items is not None else g.elem(z3.IntVal(i))
                return GenObj(items=[tuple(el_(g, i) for g in gs) for i in range(j)], pytype="zip")
        ns = []
        for g in gs:
            if g.items is not None:
                ns.append(z3.IntVal(len(g.items)))
            elif g.n is not None:
                ns.append(g.n)
        if not ns:
            return GenObj(n=None, elem=lambda i: tuple(g.elem(i) for g in gs), pytype="zip")
        n = ns[0]
        for m in ns[1:]:
            if n.eq(m) or I.c.entails(n <= m):
                continue
            n = m if I.c.entails(m <= n) else z3.If(n <= m, n, m)

        def el(g, i):
            if g.items is not None:
                if z3.is_int_value(i):
                    return g.items[i.as_long()]
                j = I.c.choose([i == q for q in range(len(g.items))])
                return g.items[j]
            return g.elem(i)
        return GenObj(n=n, elem=lambda i: tuple(el(g, i) for g in gs), pytype="zip")

    @model(map)
    def _(I, a, k):
        f = a[0]
        if len(a) == 2:
            g = I.iter_view(a[1])
            if g.items is not None:
                return GenObj(items=[I.call(f, [x], {}) for x in g.items], pytype="map")
            if g.n is None:
                return GenObj(n=None, elem=lambda i: I.call(f, [g.elem(i)], {}), pytype="map")
            out = I.new_plist([])
            I.loop(g, lambda x: I.list_append(out, I.call(f, [x], {})))
            v = I.iter_view(out)
            return GenObj(n=v.n, elem=v.elem, items=v.items, seq=v.seq, pytype="map")
        z = M[zip](I, a[1:], {})
        if z.items is not None:
            return GenObj(items=[I.call(f, list(x), {}) for x in z.items], pytype="map")
        if z.n is None:
            return GenObj(n=None, elem=lambda i: I.call(f, list(z.elem(i)), {}), pytype="map")
        out = I.new_plist([])
        I.loop(z, lambda x: I.list_append(out, I.call(f, list(x), {})))
        v = I.iter_view(out)
        return GenObj(n=v.n, elem=v.elem, items=v.items, seq=v.seq, pytype="map")

    @model(itertools.starmap)
    def _(I, a, k):
        g = I.iter_view(a[1])
        if g.items is not None:
            return GenObj(items=[I.call(a[0], list(I.iter_view(x).items), {}) for x in g.items], pytype="starmap")
        out = I.new_plist([])
        I.loop(g, lambda x: I.list_append(out, I.call(a[0], list(x), {})))
        v = I.iter_view(out)
        return GenObj(n=v.n, elem=v.elem, items=v.items, seq=v.seq, pytype="starmap")

    @model(filter)
    def _(I, a, k):
        out = I.new_plist([])

        def body(x):
            if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x):
                I.list_append(out, x)
        I.loop(I.iter_view(a[1]), body)
        return I.iter_view(out)

    # random numbers: any value the library may return
    def pick(I, a, b):
        """Any integer from a up to (not including) b."""
        if not I.c.branch(a < b):
            raise PyRaise(ExcObj(ValueError))
        r = I.c.fresh("rnd", L.I)
        I.c.assume(z3.And(a <= r, r < b))
        return I.mkint(r)

    def whole(I, v):
        v = I.unbox(v)
        if isinstance(v, Dyn) or not I.is_int_like(v):
            raise Unsupported("random bounds of unknown type")
        return I.int_term(v)

    @model(random.randrange)
    def _(I, a, k):
        if k or len(a) > 2:
            raise Unsupported("randrange with a step")
        return pick(I, *([z3.IntVal(0)] if len(a) == 1 else []), *[whole(I, x) for x in a])

    @model(random.randint)
    def _(I, a, k):
        return pick(I, whole(I, a[0]), whole(I, a[1]) + 1)

    @model(random.choice)
    def _(I, a, k):
        g = I.to_plist(a[0])
        q = I.seq_of(g)
        if not I.c.branch(I.slen(q) > 0):
            raise PyRaise(ExcObj(IndexError))
        return I.get_item(g, pick(I, z3.IntVal(0), I.slen(q)))

    @model(random.shuffle)
    def _(I, a, k):
        if len(a) != 1 or k or not isinstance(a[0], PList):
            raise Unsupported("shuffle")
        q = I.seq_of(a[0])
        t = I.c.fresh("shuffled", L.VSeq)
        bag = uf("bag", L.VSeq, Val)
        I.c.define(z3.And(SQ.len(t) == I.slen(q), bag(t) == bag(q)))
        tg = I.seq_tags(q)
        st_elems(I, t, tg) if tg is not None else None
        I.set_plist(a[0], None, t)
        return None

    @model(random.sample)
    def _(I, a, k):
        g = I.to_plist(a[0])
        q = I.seq_of(g)
        n = whole(I, a[1] if len(a) > 1 else k["k"])
        if not I.c.entails(n == I.slen(q)):
            raise Unsupported("sample of a part")
        r = I.new_plist(seq=q)
        w.models[random.shuffle](I, [r], {})
        return r

    @model(sorted)
    def _(I, a, k):
        return m_sorted(I, a, k)

    @model(all)
    def _(I, a, k):
        return m_allany(I, a[0], True)

    @model(any)
    def _(I, a, k):
        return m_allany(I, a[0], False)

    def m_allany(I, it, is_all):
        g = I.iter_view(it)
        if g.items is not None:
            fs = [I.bool_term(x) for x in g.items]
            return I.mkbool((z3.And if is_all else z3.Or)(*fs)) if fs else is_all
        return I.mkbool(I.quant(is_all, g, lambda x: I.bool_term(x)))

    def minmax(name):
        def f(I, a, k):
            key = k.get("key")
            if len(a) > 1 and key is None:
                r = a[0]
                for x in a[1:]:
                    if I.is_int_like(I.unbox(r)) and I.is_int_like(I.unbox(x)):
                        p, q = I.int_term(r), I.int_term(x)
                        cnd = (q < p) if name == "min" else (q > p)
                        if I.c.entails(cnd):
                            r = x
                        elif I.c.entails(z3.Not(cnd)):
                            pass
                        else:
                            r = I.mkint(z3.If(cnd, q, p))
                    else:
                        if I.truth(I.order("lt" if name == "min" else "gt", x, r)):
                            r = x
                return r
            g = I.iter_view(a[0]) if len(a) == 1 else GenObj(items=list(a))
            if g.items is not None and key is None:
                if not g.items:
                    if "default" in k:
                        return k["default"]
                    raise PyRaise(ExcObj(ValueError))
                if len(g.items) == 1:
                    return g.items[0]
                return f(I, g.items, {})
            n = g.n if g.items is None else z3.IntVal(len(g.items))
            if n is None:
                I.seq_of(g)             # never ends (or reported as such)
            if not I.c.branch(n > 0):
                if "default" in k:
                    return k["default"]
                raise PyRaise(ExcObj(ValueError))
            if key is None:
                s = I.seq_of(g)
                tg = I.seq_tags(s)
                t = uf("seq_" + name, L.VSeq, Val)(s)
                # the extremum is one of the elements
                wi = uf("seq_%s_w" % name, L.VSeq, L.I)(s)
                j = z3.Int("mm!j")
                I.c.define(z3.And(0 <= wi, wi < n, t == SQ.at(s, wi)))
                allnum = tg is not None and tg <= L.NUMTAGS
                if not allnum:
                    e = uf("orderable", L.VSeq, L.B)(s)
                    if not (tg is not None and tg <= {"int", "flt", "bool"}):
                        if not I.c.branch(e):
                            raise PyRaise(ExcObj(TypeError))
                if tg is not None:
                    I.set_tags(Dyn(t), tg)
                if allnum:
                    I.c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n),
                               L.n_le(t, SQ.at(s, j)) if name == "min" else L.n_le(SQ.at(s, j), t)),
                               patterns=[SQ.at(s, j)]))
                return I.unbox(Dyn(t))
            s = I.seq_of(g)
            keys = key_seq(I, g, key)
            orderable(I, keys)
            t = uf("seq_%s_by" % name, L.VSeq, L.VSeq, Val)(s, keys)
            wi = uf("seq_%s_by_w" % name, L.VSeq, L.VSeq, L.I)(s, keys)
            I.c.define(z3.And(0 <= wi, wi < n, t == SQ.at(s, wi)))
            tg = I.seq_tags(s)
            if tg is not None:
                I.set_tags(Dyn(t), tg)
            return I.unbox(Dyn(t))
        return f
    M[min] = minmax("min")
    M[max] = minmax("max")

    @model(sum)
    def _(I, a, k):
        g = I.iter_view(a[0])
        r = a[1] if len(a) > 1 else 0
        if g.items is not None:
            for x in g.items:
                r = I.binop(ast.Add(), r, x)
            return r
        s = I.seq_of(g)
        t = uf("seq_sum", L.VSeq, Val)(s)
        I.set_tags(Dyn(t), L.NUMTAGS)
        return I.binop(ast.Add(), r, Dyn(t)) if not (isinstance(r, int) and r == 0) else Dyn(t)

    @model(abs)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        if I.is_int_like(v):
            t = I.int_term(v)
            return I.mkint(z3.If(t >= 0, t, -t))
        if isinstance(v, Dyn) and not I.is_num_dyn(v):
            I.resolve(v)
            return M[abs](I, [v], {})
        if I.is_num_dyn(v) or I.is_flt_like(v):
            return Dyn(w.num_unary(I, "abs", I.num_term(v)))
        raise PyRaise(ExcObj(TypeError))

    @model(ord)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, str):
            try:
                return ord(v)
            except TypeError:
                raise PyRaise(ExcObj(TypeError))
        if not I.is_str_like(v):
            raise PyRaise(ExcObj(TypeError))
        s = I.str_term(v)
        if not I.c.branch(I.slen(s) == 1):
            raise PyRaise(ExcObj(TypeError))
        if z3.is_app(s) and s.decl().name() == "s_unit":
            return I.mkint(s.arg(0))
        t = ST.at(s, z3.IntVal(0))
        I.c.define(z3.And(t >= 0, t <= 0x10ffff))
        I.c.define(z3.Implies(ST.len(s) == 1, s == ST.unit(t)))
        return I.mkint(t)

    @model(chr)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, int):
            try:
                return chr(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(ExcObj(type(e)))
        if isinstance(v, Dyn) and not I.is_num_dyn(v):
            I.resolve(v)
            v = I.unbox(v)
        if I.is_num_dyn(v):
            if not I.has_tag(v, {"int"}):
                raise PyRaise(ExcObj(TypeError))
            v = I.unbox(v)
        if not I.is_int_like(v):
            raise PyRaise(ExcObj(TypeError))
        t = I.int_term(v)
        if I.c.branch(z3.And(t >= 0, t <= 0x10ffff)):
            return I.mkstr(ST.unit(t))
        if I.c.branch(z3.And(t >= -2**31, t < 2**31)):
            raise PyRaise(ExcObj(ValueError))
        raise PyRaise(ExcObj(OverflowError))

    @model(divmod)
    def _(I, a, k):
        return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))

    @model(print)
    def _(I, a, k):
        if k.get("file") is sys.stderr or getattr(k.get("file"), "obj", None) is sys.stderr:
            host.to_stderr(I)
            return None
        if set(k) - {"sep", "end", "flush"}:
            raise Unsupported("print to a file")
        sep, end = k.get("sep", " "), k.get("end", "\n")
        t = ST.empty
        for i, x in enumerate(a):
            if i:
                t = I.cat(t, I.str_term(I.unbox(sep)))
            t = I.cat(t, I.str_term(I.str_(x)))
        effects.written(I, Sym("str", I.cat(t, I.str_term(I.unbox(end)))))
        return None

    from . import spec as SP

    @model(SP.write)
    def _(I, a, k):
        effects.written(I, I.unbox(a[0]))
        return None

    @model(hash)
    def _(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, (str, int)) or (isinstance(v, Sym)):
            return I.mkint(uf("py_hash", Val, L.I)(I.box(v)))
        f = I.find_method(I.class_of(v), "__hash__")
        return I.call(BoundMethod(v, f, "__hash__"), [], {})

    @model(getattr)
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr with computed name")
        try:
            return I.get_attribute(a[0], a[1])
        except PyRaise as p:
            if len(a) > 2 and p.exc.cls is AttributeError:
                return a[2]
            raise

    @model(hasattr)
    def _(I, a, k):
        try:
            I.get_attribute(a[0], a[1])
            return True
        except PyRaise as p:
            if p.exc.cls is AttributeError:
                return False
            raise

    @model(callable)
    def _(I, a, k):
        return isinstance(a[0], (Closure, BoundMethod, types.FunctionType, type))

    @model(next)
    def _(I, a, k):
        g = a[0]
        if not isinstance(g, GenObj):
            raise Unsupported("next()")
        pos = g.pos
        if g.items is not None:
            if pos >= len(g.items):
                if len(a) > 1:
                    return a[1]
                raise PyRaise(ExcObj(StopIteration))
            I.c.setattr(g, "pos", pos + 1)
            return g.items[pos]
        if g.n is not None and not I.c.branch(z3.IntVal(pos) < g.n):
            if len(a) > 1:
                return a[1]
            raise PyRaise(ExcObj(StopIteration))
        I.c.setattr(g, "pos", pos + 1)
        return g.elem(z3.IntVal(pos))

    @model(itertools.product)
    def _(I, a, k):
        if k:
            raise Unsupported("product(repeat=...)")
        return tuples(I, "product", [star_seq(I, a)], None)

    @model(itertools.permutations)
    def _(I, a, k):
        return tuples(I, "permutations", [I.box(a[0])] + [I.int_term(x) for x in a[1:]], None)

    @model(itertools.combinations)
    def _(I, a, k):
        n = I.int_term(a[1])
        if not I.c.branch(n >= 0):
            raise PyRaise(ExcObj(ValueError))
        return tuples(I, "combinations", [I.box(a[0]), n], None)

    @model(itertools.chain)
    def _(I, a, k):
        out = I.new_plist([])
        for x in a:
            I.list_extend(out, x)
        return I.iter_view(out)

    @model(itertools.count)
    def _(I, a, k):
        st = I.int_term(a[0]) if a else z3.IntVal(0)
        return GenObj(n=None, elem=lambda i: I.mkint(st + i))

    @model(itertools.repeat)
    def _(I, a, k):
        if len(a) == 1:
            return GenObj(n=None, elem=lambda i: a[0])
        n = I.int_term(a[1])
        n = z3.If(n >= 0, n, 0)
        return GenObj(n=z3.simplify(n), elem=lambda i: a[0])

    @model(itertools.islice)
    def _(I, a, k):
        g = I.iter_view(a[0])
        if len(a) != 2:
            raise Unsupported("islice")
        m = I.int_term(a[1])
        if g.items is not None and isinstance(a[1], int):
            return GenObj(items=g.items[:a[1]])
        n = g.n if g.items is None else z3.IntVal(len(g.items))
        nn = m if n is None else z3.If(m <= n, m, n)
        return GenObj(n=nn, elem=g.elem)

    @model(itertools.zip_longest)
    def _(I, a, k):
        gs = []
        fill = k.get("fillvalue")
        for x in a:
            if isinstance(x, E.StarArg):
                return w.zip_longest_star(I, x.gen, fill)
            gs.append(I.iter_view(x))
        if all(g.items is not None for g in gs):
            return GenObj(items=list(itertools.zip_longest(*[g.items for g in gs], fillvalue=fill)))
        ns = [g.n if g.items is None else z3.IntVal(len(g.items)) for g in gs]
        if any(x is None for x in ns):
            n = None
        else:
            n = ns[0]
            for m in ns[1:]:
                n = z3.If(n >= m, n, m)

        def el(g, i, m):
            if m is not None and not I.c.branch(i < m):
                return fill
            if g.items is not None:
                j = I.c.choose([i == q for q in range(len(g.items))])
                return g.items[j]
            return g.elem(i)
        return GenObj(n=n, elem=lambda i: tuple(el(g, i, m) for g, m in zip(gs, ns)))

    for nm in ("match", "fullmatch", "search"):
        def mk(nm):
            def f(I, a, k):
                flags = k.get("flags", a[2] if len(a) > 2 else 0)
                if isinstance(a[0], str) and isinstance(flags, int):
                    return regex_method(w, I, re.compile(a[0], flags), nm, [I.unbox(a[1])], {})
                raise Unsupported("re." + nm)
            return f
        M[getattr(re, nm)] = mk(nm)

    @model(re.compile)
    def _(I, a, k):
        if isinstance(a[0], str) and all(isinstance(x, int) for x in a[1:]):
            return re.compile(*a)
        # a run-time regular expression
        s = I.str_term(a[0])
        fl = I.int_term(a[1]) if len(a) > 1 else z3.IntVal(0)
        return rxmod.compiled(I, "plain", s, fl)

    @model(re.sub)
    def _(I, a, k):
        raise Unsupported("re.sub")


def int_facts(self, I, t, ok, val):
    for fn in getattr(self, "int_lemmas", ()):
        fn(I, t, ok, val)


World.int_facts = int_facts
from . import host             # noqa: E402
from . import rx as rxmod      # noqa: E402
World.host_method = staticmethod(HostMethod)


def tuples(I, nm, terms, items):
    """The tuples itertools builds from the elements of Pip values: an
    uninterpreted function of the values, whose elements are Pip values."""
    t = uf("tuples_" + nm, *([x.sort() for x in terms] + [L.VSeq]))(*terms)
    k = z3.Int("tk")
    e = SQ.at(t, k)
    I.c.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < SQ.len(t)),
               z3.And(L.is_tag(e, "tuple"), L.pipseq(Val.titems(e)))), patterns=[e]))
    I.c.define(SQ.len(t) >= 0)
    st_elems(I, t, {"tuple"})
    return I.iter_view(I.new_plist(seq=t))


def star_seq(I, a):
    """The sequence of the arguments of a call f(*values)."""
    if len(a) == 1 and isinstance(a[0], E.StarArg):
        return I.seq_of(a[0].gen)
    if any(isinstance(x, E.StarArg) for x in a):
        raise Unsupported("star argument among others")
    return I.seq_of_items(list(a))


def _zip_star(self, I, g):
    v = tuples(I, "zip", [I.seq_of(g)], None)
    return GenObj(n=v.n, elem=v.elem, items=v.items, seq=v.seq, pytype="zip")


World.zip_star = _zip_star
World.zip_longest_star = lambda self, I, g, fill: tuples(I, "zip_longest", [I.seq_of(g), I.box(fill)], None)
