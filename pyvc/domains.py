"""Argument domains of contracts.  Each has a symbolic meaning (a generic
value of the domain), a static membership test (for call sites) and native
generators (for counterexample search)."""
import itertools
import z3
from . import logic as L
from .logic import Val, OInt, SQ, ST
from .values import *
from .ctx import Forall
from . import gen as G
from . import maps


class Dom:
    consumed = False     # not used any more after the call
    mutable = False

    def sym(self, I, name):
        raise NotImplementedError

    def accepts(self, I, v):
        """Does the engine value certainly belong to the domain?"""
        raise NotImplementedError

    def enum(self):
        """Small native values, simplest first."""
        return []

    def rand(self, rng):
        raise NotImplementedError


class TagDom(Dom):
    """Values whose type is one of a set of tags."""

    def __init__(self, *tags, wf=True):
        self.tagset = frozenset(tags)
        self.wf = wf

    def sym(self, I, name):
        t = z3.Const(name, Val)
        d = Dyn(t)
        I.c.assume(z3.Or(*[L.is_tag(t, x) for x in sorted(self.tagset)]))
        I.set_tags(d, self.tagset)
        if self.wf and self.tagset & L.PIPTAGS:
            if self.tagset <= L.PIPTAGS:
                I.c.assume(L.pip(t))
            else:
                I.c.assume(z3.Implies(z3.Or(*[L.is_tag(t, x) for x in sorted(self.tagset & L.PIPTAGS)]), L.pip(t)))
        return I.unbox(d)

    def accepts(self, I, v):
        v = I.unbox(v)
        if isinstance(v, Dyn):
            return I.tags(v) <= self.tagset
        c = I.class_of(v)
        ok = [t for t in self.tagset if I.w.tag_class.get(t) is c]
        return bool(ok)

    def enum(self):
        return G.enum_tags(self.tagset)

    def rand(self, rng):
        return G.rand_tags(rng, self.tagset)


class MutList(Dom):
    """A Pip List that the function may mutate."""
    mutable = True

    def sym(self, I, name):
        s = z3.Const(name, L.VSeq)
        I.c.assume(L.pipseq(s))
        pl = I.new_plist(seq=s)
        return I.new_obj(I.w.P.List, {"_value": pl})

    def accepts(self, I, v):
        return isinstance(v, Obj) and v.cls is I.w.P.List and not v.frozen

    def enum(self):
        return G.enum_tags({"list"})

    def rand(self, rng):
        return G.rand_tags(rng, {"list"})


class MutScalar(Dom):
    mutable = True

    def sym(self, I, name):
        return I.new_obj(I.w.P.Scalar, {"_value": Sym("str", z3.Const(name, L.Str))})

    def accepts(self, I, v):
        return isinstance(v, Obj) and v.cls is I.w.P.Scalar and not v.frozen

    def enum(self):
        return G.enum_tags({"scalar"})

    def rand(self, rng):
        return G.rand_tags(rng, {"scalar"})


class FreshSelf(Dom):
    """An object under construction (self of __init__)."""
    mutable = True

    def __init__(self, cls, module="ptypes"):
        self.cls, self.module = cls, module

    def sym(self, I, name):
        return I.new_obj(getattr(I.w.modules[self.module], self.cls))

    def accepts(self, I, v):
        return isinstance(v, Obj) and not v.fields

    def enum(self):
        import sys
        c = getattr(sys.modules[self.module], self.cls)
        return [object.__new__(c)]

    def rand(self, rng):
        return self.enum()[0]


class PyListOf(Dom):
    """A Python list whose elements lie in a TagDom."""

    def __init__(self, elem, mutable=False, tup=False, minlen=0, maxlen=None):
        self.maxlen = maxlen
        self.elem = elem
        self.mutable = mutable
        self.tup = tup
        self.minlen = minlen

    def sym(self, I, name):
        if self.maxlen is not None and self.maxlen == self.minlen:
            xs = [self.elem.sym(I, f"{name}!{i}") for i in range(self.minlen)]
            if self.tup:
                return tuple(xs)
            p = I.new_plist(xs)
            p.frozen = not self.mutable
            return p
        s = z3.Const(name, L.VSeq)
        I.c.keep.append(s)
        I.c.setitem(I.c.memo, ("stags", s.get_id()), self.elem.tagset)
        j = z3.Int("dj!" + name)
        e = SQ.at(s, j)
        f = z3.Or(*[L.is_tag(e, x) for x in sorted(self.elem.tagset)])
        if self.elem.tagset <= L.PIPTAGS:
            I.c.assume(L.pipseq(s))
            f = z3.And(f, L.pip(e))
        I.c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SQ.len(s)), f), patterns=[SQ.at(s, j)]))
        I.c.assume(SQ.len(s) >= self.minlen)
        if self.tup:
            return PTuple(s)
        p = I.new_plist(seq=s)
        p.frozen = not self.mutable
        return p

    def accepts(self, I, v):
        v = I.unbox(v)
        if self.tup != isinstance(v, (tuple, PTuple)):
            return False
        if self.mutable and not (isinstance(v, PList) and not v.frozen):
            return False
        if isinstance(v, PList) and v.items is not None:
            ok = all(self.elem.accepts(I, x) for x in v.items)
            n = len(v.items)
        elif isinstance(v, tuple):
            ok = all(self.elem.accepts(I, x) for x in v)
            n = len(v)
        elif isinstance(v, (PList, PTuple)):
            tg = I.seq_tags(I.seq_of(v))
            ok = tg is not None and tg <= self.elem.tagset
            n = None
        else:
            return False
        if self.minlen:
            if n is None:
                ok = ok and I.c.entails(I.slen(I.seq_of(v)) >= self.minlen)
            else:
                ok = ok and n >= self.minlen
        return ok

    def enum(self):
        base = self.elem.enum()
        out = [[]] + [[x] for x in base[:6]] + [[x, y] for x in base[:4] for y in base[:4]]
        out = [x for x in out if len(x) >= self.minlen and (self.maxlen is None or len(x) <= self.maxlen)]
        return [tuple(x) for x in out] if self.tup else out

    def rand(self, rng):
        n = rng.choice([0, 1, 2, 3, 3, 4, 5, 7, 9])
        n = max(n, self.minlen)
        if self.maxlen is not None:
            n = min(n, self.maxlen)
        r = [self.elem.rand(rng) for _ in range(n)]
        return tuple(r) if self.tup else r


class ListObjOf(Dom):
    """A Pip List object with items of another kind (lvalues)."""

    def __init__(self, elem):
        self.elem = PyListOf(elem)

    def sym(self, I, name):
        p = self.elem.sym(I, name)
        o = I.new_obj(I.w.P.List, {"_value": p})
        o.frozen = True
        return o

    def accepts(self, I, v):
        return False

    def _mk(self, xs):
        o = G.P.List([])
        o._value = list(xs)
        return o

    def enum(self):
        return [self._mk(x) for x in self.elem.enum()]

    def rand(self, rng):
        return self._mk(self.elem.rand(rng))


class Const(Dom):
    """Exactly one of several Python constants."""

    def __init__(self, *vals):
        self.vals = vals

    def sym(self, I, name):
        if len(self.vals) == 1:
            return self.vals[0]
        k = ("const", name)
        if k not in I.c.memo:
            I.c.setitem(I.c.memo, k, I.c.nondet(len(self.vals)))
        return self.vals[I.c.memo[k]]

    def accepts(self, I, v):
        v = I.unbox(v)
        return any(type(v) is type(x) and v == x for x in self.vals)

    def enum(self):
        return list(self.vals)

    def rand(self, rng):
        return rng.choice(self.vals)


PIP = TagDom(*L.PIPTAGS)
SCALAR, LIST, RANGE = TagDom("scalar"), TagDom("list"), TagDom("range")
PATTERN, BLOCK, NIL = TagDom("pattern"), TagDom("block"), TagDom("nil")
ITERABLE = TagDom("scalar", "list", "range")
INT, STR, BOOL, FLT = TagDom("int"), TagDom("str"), TagDom("bool"), TagDom("flt")
NUM = TagDom("int", "flt")
NONE = TagDom("none")
OPT_INT = TagDom("none", "int")
SLICE = TagDom("slice")
PYPIP = PyListOf(PIP)


def DYN(*tags):
    return TagDom(*tags)


class ProgDom(Dom):
    """A ProgramState whose interpreter-level effects are abstract: only the
    error reporter is a field; effectful methods act on the ghost state."""

    def __init__(self, fields=None):
        self.extra = fields or {}      # attributes that are specified (name -> domain)
        self.mutable = bool(fields)

    def sym(self, I, name):
        m = I.w.modules["execution"].ProgramState
        err = I.new_obj(I.w.modules["errors"].ErrorReporter,
                        {"warnings": I.mkbool(z3.Bool(name + "!warnings"))})
        return I.new_obj(m, {"err": err, **{k: d.sym(I, f"{name}!{k}") for k, d in self.extra.items()}})

    def accepts(self, I, v):
        return isinstance(v, Obj) and v.cls is I.w.modules["execution"].ProgramState

    def enum(self):
        return [self.state(0)]

    def rand(self, rng):
        return self.state(rng.randrange(10 ** 6))

    def state(self, seed):
        st = G.new_state(seed)
        if self.extra:
            import random
            r = random.Random(seed)
            st._fields = list(self.extra)
            for k, d in self.extra.items():
                setattr(st, k, d.rand(r))
        return st


class ScopeDom(Dom):
    """A ProgramState whose variable tables (global and local) are symbolic;
    `depth` scopes are on the stack (what lies below is opaque)."""
    mutable = True

    def __init__(self, scopes=False):
        self.scopes = scopes

    def sym(self, I, name):
        X = I.w.modules["execution"]
        err = I.new_obj(I.w.modules["errors"].ErrorReporter, {"warnings": I.mkbool(z3.Bool(name + "!warnings"))})
        g = maps.sym(I, name + "!global")
        loc = I.new_obj(X.LocalScope, {"function": None, "argList": None, "vars": maps.sym(I, name + "!local")})
        o = I.new_obj(X.ProgramState, {"err": err, "vars": g, "localScope": loc})
        from .values import PDict
        bm = lambda n: BoundMethod(o, X.ProgramState.__dict__[n], n)
        sv = PDict({"q": PDict({"get": bm("getq")}), "r": PDict({"get": bm("getr"), "set": bm("setr")})})
        sv.frozen = sv.d["q"].frozen = sv.d["r"].frozen = True
        o.fields["specialVars"] = sv
        if self.scopes:
            o.fields["callDepth"] = I.mkint(z3.Int(name + "!depth"))
            k = ("below", name)
            if k not in I.c.memo:
                I.c.setitem(I.c.memo, k, I.c.nondet(3))
            below = I.c.memo[k]
            items = [I.new_obj(X.LocalScope, {"function": None, "argList": None,
                                              "vars": maps.sym(I, f"{name}!scope{i}")}) for i in range(below)]
            o.fields["scopes"] = I.new_plist(items + [loc])
        return o

    def accepts(self, I, v):
        return isinstance(v, Obj) and v.cls is I.w.modules["execution"].ProgramState and "vars" in v.fields

    def enum(self):
        return [G.scoped_state(i) for i in range(6)]

    def rand(self, rng):
        return G.scoped_state(rng.randrange(10 ** 6))


class NameDom(TagDom):
    """Names of variables."""

    def __init__(self):
        TagDom.__init__(self, "str")

    def enum(self):
        return list(G.VARNAMES)

    def rand(self, rng):
        return rng.choice(G.VARNAMES)


PROG = ProgDom()
SCOPES = ScopeDom()
STACK = ScopeDom(scopes=True)
VARNAME = NameDom()
LVALS = ListObjOf(TagDom("lval"))
OPT_SCALAR = TagDom("none", "scalar")
OPT_PIP = TagDom("none", *L.PIPTAGS)

EXPR = TagDom("name", "literal", "lval", "pylist", *L.PIPTAGS)
OPER, LVAL, NAME, CMD = TagDom("oper"), TagDom("lval"), TagDom("name"), TagDom("cmd")


class ExprDom(Dom):
    """A parsed expression or value that the evaluator can be given."""
    tagset = frozenset(["name", "literal", "lval", "pylist"]) | L.PIPTAGS

    def sym(self, I, name):
        return TagDom(*self.tagset).sym(I, name)

    def accepts(self, I, v):
        return TagDom(*self.tagset).accepts(I, v)

    def enum(self):
        return G._enum_name() + G._enum_literal()[:2] + [[G._op("+", 2), G._enum_name()[0], G._enum_literal()[0]],
                                                          G.S("3"), G.LST([G.S("1"), G.S("2")])]

    def rand(self, rng):
        return G._rand_expr(rng, 0)


EXPR = ExprDom()


class UnevaluatedDom(ExprDom):
    """A name, literal or parse tree."""
    tagset = frozenset(["name", "literal", "pylist"])

    def enum(self):
        return ExprDom.enum(self)[:4]

    def rand(self, rng):
        while True:
            e = G._rand_expr(rng, 0)
            if isinstance(e, (list, G.X.tokens.Name, G.X.tokens.Literal)):
                return e


UNEVALUATED = UnevaluatedDom()


class TokenDom(Dom):
    """A literal token of one kind, with any text of the shape the scanner
    gives it."""
    SHAPES = {"Number": ("", ""), "String": ('"', '"'), "EscapedString": ('\\"', '\\"'), "Pattern": ("`", "`"),
              "Char": ("'", ""), "Nil": None, "Name": ("", "")}

    def __init__(self, kind):
        self.kind = kind

    def sym(self, I, name):
        cls = getattr(I.w.modules["tokens"], self.kind)
        if self.kind == "Nil":
            return I.new_obj(cls, {"_text": "()"})
        a, b = self.SHAPES[self.kind]
        inner = z3.Const(name, L.Str)
        if self.kind == "Char":
            I.c.assume(ST.len(inner) == 1)
        t = I.str_term(inner) if False else inner
        for x, left in ((a, True), (b, False)):
            if x:
                t = I.cat(I.lit(x), t) if left else I.cat(t, I.lit(x))
        return I.new_obj(cls, {"_text": Sym("str", t)})

    def accepts(self, I, v):
        return isinstance(v, Obj) and v.cls.__name__ == self.kind and v.cls.__module__ == "tokens"

    def _mk(self, inner):
        cls = getattr(G.X.tokens, self.kind)
        if self.kind == "Nil":
            return cls()
        a, b = self.SHAPES[self.kind]
        if self.kind == "Char":
            inner = (inner + "x")[0]
        return cls(a + inner + b)

    def enum(self):
        return [self._mk(x) for x in ("5", "", "a", "-3.5", "a\\\\b", "x\\`y", "ab'\"c", "\\n", "\\\\`")]

    def rand(self, rng):
        return self._mk("".join(rng.choice("ab\\`\"'5.- \n") for _ in range(rng.randint(0, 8))))


class ExprList(Dom):
    """A Python list of expressions (a block of code, a parse tree body)."""

    def sym(self, I, name):
        s = z3.Const(name, L.VSeq)
        I.c.keep.append(s)
        I.c.setitem(I.c.memo, ("stags", s.get_id()), ExprDom.tagset)
        p = I.new_plist(seq=s)
        p.frozen = True
        return p

    def accepts(self, I, v):
        return isinstance(I.unbox(v), PList)

    def enum(self):
        e = EXPR.enum()
        return [[], [e[0]], [e[-3]], [e[0], e[1]]]

    def rand(self, rng):
        return [G._rand_expr(rng, 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


EXPRS = ExprList()


class Tree(Dom):
    """A parse tree [operator, arg, ...] with a given number of arguments."""

    def __init__(self, n, flags=None, meta=None):
        self.n, self.flags, self.meta = n, flags, meta

    def sym(self, I, name):
        items = [OPER.sym(I, name + "!op")] + [EXPR.sym(I, f"{name}!{i}") for i in range(self.n)]
        p = I.new_plist(items)
        p.frozen = True
        return p

    def accepts(self, I, v):
        return False

    def fix(self, o):
        if self.flags is not None:
            o.flags = self.flags
        if self.meta is False:
            o.assign = o.map = o.fold = o.scan = False
        return o

    def operators(self):
        tab = [o.copy() for o in G.ops_table()] + [G.X.ops.chain.copy()]
        return [o for o in tab if o.arity == self.n and (self.flags is None or o.flags == self.flags)] or \
               [o for o in tab if o.arity == self.n] or tab

    def enum(self):
        out = []
        vals = [G.S("3"), G.LST([G.S("1"), G.S("2")]), G._enum_name()[0], G._enum_literal()[0]]
        import itertools
        combos = list(itertools.product(vals, repeat=self.n))
        ops = self.operators()
        for i, o in enumerate(ops[:40]):
            for a in (combos if i < 3 else combos[i % len(combos):][:1]):
                out.append([self.fix(G.clone(o))] + list(a))
                if self.meta is not False:
                    m = G.clone(out[-1])
                    setattr(m[0], ("assign", "map", "fold", "scan")[i % 4], True)
                    out.append(m)
        return out

    def rand(self, rng):
        o = self.fix(G.clone(rng.choice(self.operators())))
        if self.meta is not False and rng.random() < .5:
            setattr(o, rng.choice(["assign", "map", "fold", "scan"]), True)
        return [o] + [G._rand_expr(rng, 0) for _ in range(self.n)]


class CommandTree(Dom):
    """A command statement [command, part, ...]; parts are expressions."""

    def __init__(self, n):
        self.n = n

    def sym(self, I, name):
        p = I.new_plist([CMD.sym(I, name + "!cmd")] + [EXPR.sym(I, f"{name}!{i}") for i in range(self.n)])
        p.frozen = True
        return p

    def accepts(self, I, v):
        return False

    def enum(self):
        return [[c] + [EXPR.enum()[(i + j) % 6] for j in range(self.n)] for i, c in enumerate(G._enum_cmd())]

    def rand(self, rng):
        return [rng.choice(G._enum_cmd())] + [G._rand_expr(rng, 0) for _ in range(self.n)]


class ObjDom(Dom):
    """An object of a class with the given field domains."""

    def __init__(self, module, cls, fields, mutable=False):
        self.module, self.cls, self.fields, self.mutable = module, cls, fields, mutable

    def sym(self, I, name):
        c = getattr(I.w.modules[self.module], self.cls)
        return I.new_obj(c, {f: d.sym(I, f"{name}!{f}") for f, d in self.fields.items()})

    def accepts(self, I, v):
        return False

    def native_cls(self):
        import sys
        return getattr(sys.modules[self.module], self.cls)

    def _mk(self, vals):
        o = object.__new__(self.native_cls())
        o.__dict__.update(zip(self.fields, vals))
        return o

    def enum(self):
        es = [list(d.enum()) for d in self.fields.values()]
        return [self._mk([e[i % len(e)] for e in es]) for i in range(max(map(len, es)))]

    def rand(self, rng):
        return self._mk([d.rand(rng) for d in self.fields.values()])


OPEROBJ = ObjDom("operators", "Operator", {
    "_text": STR, "function": STR, "arity": INT, "precedence": INT, "associativity": DYN("none", "str"),
    "default": DYN("none", "int", "str"), "flags": INT, "assign": BOOL, "map": BOOL, "fold": BOOL, "scan": BOOL})


class StreamDom(Dom):
    """A list of tokens that ends with None, as scan gives it."""
    mutable = True
    consumed = False

    def sym(self, I, name):
        from .tokstream import TokStream
        return TokStream()

    def accepts(self, I, v):
        return False

    def enum(self):
        return []

    def rand(self, rng):
        return self.make(rng)


class GrowDom(Dom):
    """[op, left]: an operator without its right operand above a tree; it
    becomes part of the result."""
    mutable = True
    consumed = True

    def __init__(self, leaf):
        self.leaf = leaf

    def sym(self, I, name):
        op = z3.Const(name + "!op", L.Val)
        I.c.assume(L.is_tag(op, "oper"))
        I.set_tags(Dyn(op), {"oper"})
        if self.leaf:
            left = TagDom("name", "literal").sym(I, name + "!left")
        else:
            s = z3.Const(name + "!left", L.VSeq)
            o = SQ.at(s, z3.IntVal(0))
            I.c.assume(z3.And(SQ.len(s) >= 1, L.is_tag(o, "oper")))
            I.set_tags(Dyn(o), {"oper"})
            ar = z3.Function("op_arity", L.Ob, L.I)(Val.opid(o))
            I.c.assume(z3.Implies(z3.Or(ar == 2, ar == 3), SQ.len(s) >= 3))
            left = I.new_plist(seq=s)
        return I.new_plist([Dyn(op), left])

    def accepts(self, I, v):
        return False

    def enum(self):
        return []

    def rand(self, rng):
        return self.make(rng)
