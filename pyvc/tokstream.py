"""The list of tokens a parsing function works on.

The list is part of the abstract state (effects.py): its first items are
functions tok(state, k) of the state, taking the first one off and calling
another parsing function give the next state.  Two parsers that are equal for
every such pair of functions look at, take off and hand on the same tokens in
the same order.  A token is what the scanner makes of its text (newToken): one
whose text is an operator's is an Operator, and so on; the list ends with
None, and that nothing is read past it is an obligation."""
import z3
from . import logic as L
from .logic import Val, SQ, St
from .values import *

TOK = frozenset(["none", "name", "literal", "optok", "symtok", "cmdtok"])
SYN = frozenset(["name", "literal", "optok", "symtok", "cmdtok", "oper", "cmd"])
KINDS = ["Literal", "Number", "String", "Pattern", "Char", "EscapedString", "Nil"]
SYMBOLS = ("[", "]", "(", ")", "{", "}", ";", "$", "\\$", "EL")
TREE = frozenset(["name", "literal", "pylist"])
RESULT = {"parse": {"pylist"}, "parseStatement": TREE, "parseNameList": {"name", "pylist"}, "parseBlock": {"pylist"},
          "parseExpr": TREE, "parseOperand": TREE}


def uf(name, *sorts):
    from .world import uf as u
    return u(name, *sorts)


class TokStream:
    """The token list."""
    __slots__ = ()


class TokMethod:
    __slots__ = ("name", "hole")

    def __init__(self, name, hole=None):
        self.name, self.hole = name, hole


def tok(I, k):
    st = I.ghost.fields["st"].t
    while z3.is_app(st) and st.decl().name() == "next!tokpop":
        st, k = st.arg(0), k + 1
    return uf("tok", St, L.I, Val)(st, z3.IntVal(k))


def token(I, k):
    """The token at index k, nothing before it being the end."""
    for j in range(k):
        present(I, tok(I, j))
    t = tok(I, k)
    d = Dyn(t)
    if I.tags(d) == L.ALLTAGS:
        for f in token_facts():
            I.c.define(f)
        I.set_tags(d, TOK)
    return I.unbox(d)


_facts = []


def token_facts():
    if not _facts:
        st, i, x = z3.Const("st", St), z3.Int("i"), z3.Const("x", Val)
        f, text = uf("tok", St, L.I, Val), uf("tk_text", Val, L.Str)
        _facts.append(z3.ForAll([st, i], z3.Or(*[L.is_tag(f(st, i), q) for q in sorted(TOK)]), patterns=[f(st, i)]))
        _facts.append(z3.ForAll([x], z3.And(*[z3.Implies(L.is_tag(x, q), text(x) == accessor(q)(x))
                                              for q in sorted(SYN)]), patterns=[text(x)]))
    return _facts


def accessor(tag):
    acc = {"name": Val.nmtext, "optok": Val.optext, "symtok": Val.symtext, "cmdtok": Val.cmdtext}
    if tag in acc:
        return acc[tag]
    a, f = {"literal": (Val.lid, lit_text), "oper": (Val.opid, uf("op__text", L.Ob, L.Str)),
            "cmd": (Val.cid, uf("cmd__text", L.Ob, L.Str))}[tag]
    return lambda x: f(a(x))


def present(I, t):
    d = Dyn(t)
    if "none" not in I.tags(d) and I.tags(d) != L.ALLTAGS:
        return
    g = z3.Not(L.is_tag(t, "none"))
    if not I.c.entails(g):
        I.obligation("the token list is not read past its end", g)
        I.c.assume(g)


def item(I, i):
    if isinstance(i, bool) or not isinstance(i, int) or not 0 <= i <= 2:
        raise Unsupported("item of a token list")
    return token(I, i)


def call(I, m, args, kwargs):
    from .effects import StateV
    if m.hole is not None:
        return hole_add(I, m.hole, m.name, args)
    if m.name != "pop" or kwargs or len(args) != 1 or I.unbox(args[0]) != 0:
        raise Unsupported(f"{m.name} of a token list")
    r = token(I, 0)
    present(I, tok(I, 0))
    if isinstance(r, Dyn) and "none" in I.tags(r):
        I.set_tags(r, I.tags(r) - {"none"})
    g = I.ghost
    I.c.setitem(g.fields, "st", StateV(uf("next!tokpop", St, St)(g.fields["st"].t)))
    I.note(("fld", g, "st"))
    return r


# ---- the text of a token ---------------------------------------------------
def lit_text(t):
    return uf("lit_text", L.Ob, L.Str)(t)


def lit_kind(t):
    return uf("lit_kind", L.Ob, L.I)(t)


def text_of(I, d):
    """Text of a token (not None)."""
    x = d.t
    tg = sorted(I.tags(d) - {"none"})
    if len(tg) == 1:
        if L.cons_tag(x) == tg[0] and tg[0] not in ("literal", "oper", "cmd"):
            return x.arg(0)
        return accessor(tg[0])(x)
    I.c.define(token_facts()[1])
    return uf("tk_text", Val, L.Str)(x)


def kind_of_text(I, s):
    ops = I.w.modules["operators"]
    if s in ops.operators:
        return "optok"
    if s in ops.commands:
        return "cmdtok"
    if s in SYMBOLS:
        return "symtok"
    return None


def eq(I, d, s):
    """token == text, by the contract of Token.__eq__."""
    I.used_contracts.add("tokens.Token.__eq__")
    tg = I.tags(d)
    t = text_of(I, d)
    st = I.str_term(s)
    I.note_pair(t, st)
    e = t == st
    if z3.is_app(d.t) and d.t.decl().name() == "tok" and isinstance(s, str):
        k = kind_of_text(I, s)
        if k is not None:
            if k not in tg:
                return False
            I.c.define(z3.Implies(z3.And(z3.Not(L.is_tag(d.t, "none")), e), L.is_tag(d.t, k)))
    if "none" in tg:
        e = z3.And(z3.Not(L.is_tag(d.t, "none")), e)
    return I.mkbool(e)


# ---- the operator and command tables ----------------------------------------
def table(I, d):
    ops = I.w.modules["operators"]
    for a in (1, 2, 3):
        if d is ops.opsByArity[a]:
            return "ops%d" % a
    if d is ops.commands:
        return "cmds"
    return None


def member(I, name, d):
    t = text_of(I, d)
    I.used_contracts.add("tokens.Token.__eq__")
    I.used_contracts.add("tokens.Token.__hash__")
    m = uf("in!" + name, L.Str, L.B)(t)
    k = "cmdtok" if name == "cmds" else "optok"
    if z3.is_app(d.t) and d.t.decl().name() == "tok":
        if k not in I.tags(d):
            return False
        I.c.define(z3.Implies(z3.And(z3.Not(L.is_tag(d.t, "none")), m), L.is_tag(d.t, k)))
        if name == "cmds":      # a token is a Command because it is in the table
            I.c.define(z3.Implies(L.is_tag(d.t, k), m))
    if "none" in I.tags(d):
        m = z3.And(z3.Not(L.is_tag(d.t, "none")), m)
    return I.mkbool(m)


def lookup(I, name, d):
    if not I.c.branch(I.bool_term(member(I, name, d))):
        raise PyRaise(ExcObj(KeyError))
    t = text_of(I, d)
    o = uf(name + "!entry", L.Str, L.Ob)(t)
    F = z3.BoolVal(False)
    if name == "cmds":
        I.c.define(uf("cmd__text", L.Ob, L.Str)(o) == t)
        r = Dyn(Val.PCmd(o))
        I.set_tags(r, {"cmd"})
        return r
    I.c.define(z3.And(uf("op__text", L.Ob, L.Str)(o) == t, uf("op_arity", L.Ob, L.I)(o) == int(name[3:])))
    r = Dyn(Val.POper(o, F, F, F, F))
    I.set_tags(r, {"oper"})
    return r


def new_literal(I, v):
    """Val term of a literal token made by the code."""
    k, t = KINDS.index(v.cls.__name__), I.str_term(v.fields["_text"])
    ob = uf("lit_mk", L.I, L.Str, L.Ob)(z3.IntVal(k), t)
    I.c.define(z3.And(lit_text(ob) == t, lit_kind(ob) == k))
    return Val.PLit(ob)


def is_kind(I, d, names):
    """Is d (a literal) of one of the named classes?"""
    x = d.t
    k = lit_kind(x.arg(0) if L.cons_tag(x) == "literal" else Val.lid(x))
    return z3.Or(*[k == KINDS.index(n) for n in names])


# ---- growing trees ------------------------------------------------------------
# bubble(tree) gives a tree and one of its nodes, to which the caller then adds
# items.  Seen from outside, the tree is graft(op, left, items added so far);
# this is what the contract of bubble says.
class Raw:
    """The function under contract itself, as called by its contract's harness."""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Hole:
    """The node that items can be added to."""
    __slots__ = ("tree", "op", "left", "items", "future", "used")

    def __init__(self, tree, op, left, future=None):
        self.tree, self.op, self.left, self.items, self.future, self.used = tree, op, left, [], future, False


def graft(I, op, left, items):
    """graft(op, left, items) as a list."""
    t = uf("graft", Val, Val, Val, Val)(op, left, Val.PList(items))
    I.c.define(L.is_tag(t, "pylist"))
    return Val.pitems(t)


def operand_terms(I, tree):
    tree = I.unbox(tree)
    if not isinstance(tree, PList) or tree.items is None or len(tree.items) != 2:
        raise Unsupported("bubble of another tree")
    op, left = tree.items
    b = I.boxf(op)
    if I.tags(Dyn(b)) != {"oper"}:
        raise Unsupported("bubble of a tree whose operator is not known to be one")
    return b, I.boxf(left)


def bubble(I, con, tree):
    op, left = operand_terms(I, tree)
    I.used_contracts.add(con.name)
    if I.target is con or I.target.parent is con or I.target.qualname == con.qualname:
        # within the proof of bubble itself: the items that will be added are known
        xs = I.prophecy
        h = Hole(None, op, left, xs)
        I.c.setattr(I, "holes", I.holes + [h])
        return (I.new_plist(seq=graft(I, op, left, xs)), h)
    t = I.new_plist(seq=graft(I, op, left, SQ.empty))
    return (t, Hole(t, op, left))


def hole_add(I, h, name, args):
    c = I.c
    if name not in ("append", "extend") or len(args) != 1:
        raise Unsupported(f"{name} of a tree node that is being built")
    if h.future is not None:
        if name != "extend" or h.used or I.seq_of(I.to_plist(args[0])).get_id() != h.future.get_id():
            raise Unsupported("bubble adds to the node itself")
        c.setattr(h, "used", True)
        return None
    if h.tree.frozen:
        raise Unsupported("tree used before it is complete")
    new = [args[0]] if name == "append" else I.to_plist(args[0]).items
    if new is None:
        raise Unsupported("unknown number of items added to a tree node")
    c.setattr(h, "items", h.items + [Dyn(I.boxf(x)) for x in new])
    I.set_plist(h.tree, None, graft(I, h.op, h.left, I.seq_of_items(h.items)))
    return None


def run_harness(I, con, fn, args):
    I.c.setattr(I, "prophecy", I.seq_of(args[-1]))
    I.c.setattr(I, "holes", [])
    r = I.inline(con.harness, [Raw(fn)] + args, {})
    for h in I.holes:
        I.obligation("items go where the tree says", z3.BoolVal(h.used))
    return r
