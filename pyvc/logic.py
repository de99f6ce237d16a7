"""First-order theory used by the pyvc verifier.

Sorts
  Str   Python/Pip character strings   (finite sequences of code points)
  VSeq  finite sequences of values
  Val   every Python/Pip value the verified code manipulates
  Flt   Python floats (uninterpreted)
  Int   mathematical integers (exactly Python's int)

The sequence axioms are the usual Dafny/Boogie style ones: lengths are
non-negative, and len/at of every constructor are defined; extensionality is
triggered by an explicit `pair` marker.  Every axiom below is a theorem about
finite sequences / Python integers; the list is part of the trusted base.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
Str = z3.DeclareSort("Str")
VSeq = z3.DeclareSort("VSeq")
Flt = z3.DeclareSort("Flt")
St = z3.DeclareSort("St")          # states of the interpreter (variables, scopes, input, output, ...)
Ob = z3.DeclareSort("Ob")          # opaque python objects (tokens, ...)

_oi = z3.Datatype("OInt")
_oi.declare("onone")
_oi.declare("osome", ("oval", I))
OInt = _oi.create()

_d = z3.Datatype("Val")
_d.declare("Nil")
_d.declare("Scalar", ("sv", Str))
_d.declare("Pattern", ("praw", Str), ("pflags", I))
_d.declare("List", ("items", VSeq))
_d.declare("Range", ("rlo", OInt), ("rhi", OInt))
_d.declare("Block", ("bstmts", VSeq), ("bret", _d))
_d.declare("PNone")
_d.declare("PInt", ("ival", I))
_d.declare("PBool", ("bval", B))
_d.declare("PFlt", ("fval", Flt))
_d.declare("PStr", ("strv", Str))
_d.declare("PList", ("pitems", VSeq))
_d.declare("PTup", ("titems", VSeq))
_d.declare("PSlice", ("slo", OInt), ("shi", OInt))
_d.declare("PName", ("nmtext", Str))                      # tokens.Name
_d.declare("PLit", ("lid", Ob))                           # tokens.Literal
_d.declare("PLval", ("lref", Ob))                         # execution.Lval
_d.declare("POper", ("opid", Ob), ("oassign", B), ("omap", B), ("ofold", B), ("oscan", B))   # operators.Operator
_d.declare("PCmd", ("cid", Ob))                           # operators.Command
_d.declare("PMatch", ("mid", Ob))                           # re.Match
_d.declare("POpTok", ("optext", Str))                     # tokens.Operator
_d.declare("PSymTok", ("symtext", Str))                   # tokens.Symbol
_d.declare("PCmdTok", ("cmdtext", Str))                   # tokens.Command
_d.declare("Opq", ("oid", Ob), ("ocls", I))
Val = _d.create()

TAGS = ["nil", "scalar", "pattern", "list", "range", "block", "none", "int",
        "bool", "flt", "str", "pylist", "tuple", "slice", "name", "literal", "lval", "oper", "cmd", "match", "optok", "symtok", "cmdtok", "opq"]
CONS = {"nil": "Nil", "scalar": "Scalar", "pattern": "Pattern", "list": "List",
        "range": "Range", "block": "Block", "none": "PNone", "int": "PInt",
        "bool": "PBool", "flt": "PFlt", "str": "PStr", "pylist": "PList",
        "tuple": "PTup", "slice": "PSlice", "name": "PName", "literal": "PLit", "lval": "PLval",
        "oper": "POper", "cmd": "PCmd", "match": "PMatch", "optok": "POpTok", "symtok": "PSymTok",
        "cmdtok": "PCmdTok", "opq": "Opq"}
SYNTAX = frozenset(["name", "literal", "lval", "oper", "cmd", "match", "optok", "symtok", "cmdtok"])
PIPTAGS = frozenset(["nil", "scalar", "pattern", "list", "range", "block"])
ALLTAGS = frozenset(TAGS)
NUMTAGS = frozenset(["int", "flt"])
_tester = {t: getattr(Val, "is_" + CONS[t]) for t in TAGS}
_consdecl = {}
for _i in range(Val.num_constructors()):
    _consdecl[Val.constructor(_i).get_id()] = TAGS[_i]


def is_tag(term, tag):
    return _tester[tag](term)


def cons_tag(term):
    """The tag of a constructor application, or None."""
    if z3.is_app(term):
        return _consdecl.get(term.decl().get_id())
    return None


def F(name, *sorts):
    return z3.Function(name, *sorts)


def V(name, sort):
    return z3.Const(name, sort)


AXIOMS = []          # (name, formula)


def axiom(name, f):
    AXIOMS.append((name, f))


def forall(vs, body, pats=()):
    ps = []
    for p in pats:
        if isinstance(p, (list, tuple)):
            ps.append(z3.MultiPattern(*p))
        else:
            ps.append(p)
    return z3.ForAll(vs, body, patterns=ps)


class SeqTheory:
    def __init__(self, name, sort, elem):
        self.name, self.sort, self.elem = name, sort, elem
        n = name
        S, E = sort, elem
        self.len = F(n + "_len", S, I)
        self.at = F(n + "_at", S, I, E)
        self.empty = V(n + "_empty", S)
        self.unit = F(n + "_unit", E, S)
        self.cat = F(n + "_cat", S, S, S)
        self.slice = F(n + "_slice", S, I, I, S)
        self.rep = F(n + "_rep", S, I, S)
        self.rev = F(n + "_rev", S, S)
        self.upd = F(n + "_upd", S, I, E, S)
        self.pair = F(n + "_pair", S, S, B)
        self.diff = F(n + "_diff", S, S, I)
        self.has = F(n + "_has", S, E, B)         # membership
        self.hasw = F(n + "_hasw", S, E, I)       # witness
        s, t = V("s", S), V("t", S)
        i, j, k = V("i", I), V("j", I), V("k", I)
        e, g = V("e", E), V("g", E)
        ln, at = self.len, self.at
        A = lambda nm, f: axiom(n + "." + nm, f)
        A("len>=0", forall([s], ln(s) >= 0, [ln(s)]))
        A("len0", forall([s], z3.Implies(ln(s) == 0, s == self.empty), [ln(s)]))
        A("empty", ln(self.empty) == 0)
        A("unit.len", forall([e], ln(self.unit(e)) == 1, [self.unit(e)]))
        A("unit.at", forall([e], at(self.unit(e), 0) == e, [self.unit(e)]))
        A("cat.len", forall([s, t], ln(self.cat(s, t)) == ln(s) + ln(t), [self.cat(s, t)]))
        A("cat.at", forall([s, t, k],
          z3.And(z3.Implies(z3.And(0 <= k, k < ln(s)), at(self.cat(s, t), k) == at(s, k)),
                 z3.Implies(z3.And(ln(s) <= k, k < ln(s) + ln(t)),
                            at(self.cat(s, t), k) == at(t, k - ln(s)))),
          [at(self.cat(s, t), k)]))
        A("cat.e1", forall([s], self.cat(self.empty, s) == s, [self.cat(self.empty, s)]))
        A("cat.e2", forall([s], self.cat(s, self.empty) == s, [self.cat(s, self.empty)]))
        rng = z3.And(0 <= i, i <= j, j <= ln(s))
        A("slice.len", forall([s, i, j], z3.Implies(rng, ln(self.slice(s, i, j)) == j - i),
                              [self.slice(s, i, j)]))
        A("slice.at", forall([s, i, j, k], z3.Implies(z3.And(rng, 0 <= k, k < j - i),
          at(self.slice(s, i, j), k) == at(s, i + k)), [at(self.slice(s, i, j), k)]))
        A("slice.full", forall([s, i, j], z3.Implies(z3.And(i == 0, j == ln(s)), self.slice(s, i, j) == s),
                               [self.slice(s, i, j)]))
        A("rep.len", forall([s, i], z3.Implies(i >= 0, ln(self.rep(s, i)) == imul(i, ln(s))),
                            [self.rep(s, i)]))
        A("rep.neg", forall([s, i], z3.Implies(i <= 0, self.rep(s, i) == self.empty), [self.rep(s, i)]))
        A("rep.one", forall([s], self.rep(s, 1) == s, [self.rep(s, 1)]))
        A("rep.at", forall([s, i, k], z3.Implies(z3.And(0 <= k, k < imul(i, ln(s))),
          at(self.rep(s, i), k) == at(s, fmod(k, ln(s)))), [at(self.rep(s, i), k)]))
        A("rep.unit", forall([e, i, k], z3.Implies(z3.And(0 <= k, k < i),
          at(self.rep(self.unit(e), i), k) == e), [at(self.rep(self.unit(e), i), k)]))
        A("rev.len", forall([s], ln(self.rev(s)) == ln(s), [self.rev(s)]))
        A("rev.at", forall([s, k], z3.Implies(z3.And(0 <= k, k < ln(s)),
          at(self.rev(s), k) == at(s, ln(s) - 1 - k)), [at(self.rev(s), k)]))
        A("upd.len", forall([s, i, e], ln(self.upd(s, i, e)) == ln(s), [self.upd(s, i, e)]))
        A("upd.at", forall([s, i, e, k], z3.Implies(z3.And(0 <= k, k < ln(s)),
          at(self.upd(s, i, e), k) == z3.If(k == i, e, at(s, k))), [at(self.upd(s, i, e), k)]))
        d = self.diff(s, t)
        A("ext", forall([s, t], z3.Or(s == t, ln(s) != ln(t),
          z3.And(0 <= d, d < ln(s), at(s, d) != at(t, d))), [self.pair(s, t)]))
        A("has1", forall([s, e, k], z3.Implies(z3.And(0 <= k, k < ln(s), at(s, k) == e), self.has(s, e)),
                         [(self.has(s, e), at(s, k))]))
        w = self.hasw(s, e)
        A("has2", forall([s, e], z3.Implies(self.has(s, e), z3.And(0 <= w, w < ln(s), at(s, w) == e)),
                         [self.has(s, e)]))


# ---- integer arithmetic: non-linear operations kept as functions ----------
imul = F("imul", I, I, I)
fdiv = F("fdiv", I, I, I)
fmod = F("fmod", I, I, I)
dvd = F("dvd", I, I, B)
_a, _b, _k = V("a", I), V("b", I), V("k", I)
axiom("imul.comm", forall([_a, _b], imul(_a, _b) == imul(_b, _a), [imul(_a, _b)]))
axiom("imul.0", forall([_a], imul(0, _a) == 0, [imul(0, _a)]))
axiom("imul.1", forall([_a], imul(1, _a) == _a, [imul(1, _a)]))
axiom("imul.pred", forall([_a, _b], z3.And(
    imul(_a, _b) == z3.If(_a == 0, 0, z3.If(_a == 1, _b, z3.If(_a == -1, -_b, imul(_a, _b)))),
    z3.Implies(z3.And(_a >= 1, _b >= 0), z3.And(imul(_a, _b) >= _b)),
    z3.Implies(z3.And(_b >= 1, _a >= 0), z3.And(imul(_a, _b) >= _a)),
    z3.Implies(z3.And(_a <= 0, _b >= 0), imul(_a, _b) <= 0),
    z3.Implies(z3.And(_a <= -1, _b >= 0), imul(_a, _b) <= -_b)), [imul(_a, _b)]))
axiom("imul.step", forall([_a, _b, _k], z3.And(
    z3.Implies(_a == _k + 1, imul(_a, _b) == imul(_k, _b) + _b),
    z3.Implies(z3.And(_a > _k, _b > 0), imul(_a, _b) >= imul(_k, _b) + _b),
    z3.Implies(z3.And(_a > _k, _b < 0), imul(_a, _b) <= imul(_k, _b) + _b)),
                          [(imul(_a, _b), imul(_k, _b))]))
axiom("fmod.range", forall([_a, _b], z3.And(
    z3.Implies(_b > 0, z3.And(0 <= fmod(_a, _b), fmod(_a, _b) < _b)),
    z3.Implies(_b < 0, z3.And(_b < fmod(_a, _b), fmod(_a, _b) <= 0)),
    z3.Implies(z3.And(0 <= _a, _a < _b), fmod(_a, _b) == _a),
    z3.Implies(z3.And(_b <= _a, _a < 2 * _b), fmod(_a, _b) == _a - _b),
    z3.Implies(z3.And(-_b <= _a, _a < 0), fmod(_a, _b) == _a + _b)), [fmod(_a, _b)]))
axiom("fdivmod", forall([_a, _b], z3.Implies(_b != 0, _a == imul(fdiv(_a, _b), _b) + fmod(_a, _b)),
                        [fdiv(_a, _b)]))
axiom("fdivmod.2", forall([_a], z3.And(fdiv(_a, 2) == _a / 2), [fdiv(_a, 2)]))
axiom("fmod.2", forall([_a], z3.And(fmod(_a, 2) == _a % 2), [fmod(_a, 2)]))
axiom("fdiv.small", forall([_a, _b], z3.And(
    z3.Implies(z3.And(0 <= _a, _a < _b), fdiv(_a, _b) == 0),
    z3.Implies(z3.And(_b <= _a, _b > 0), fdiv(_a, _b) >= 1),
    z3.Implies(z3.And(_a >= 0, _b > 0), z3.And(fdiv(_a, _b) >= 0, fdiv(_a, _b) <= _a)),
    z3.Implies(z3.And(_a > 0, _b > 1), fdiv(_a, _b) < _a),
    z3.Implies(z3.And(_a < 0, _b > 0), fdiv(_a, _b) <= -1)), [fdiv(_a, _b)]))
# two numbers that differ by a multiple of m are congruent mod m
axiom("fmod.congr", forall([_a, _b, _k], z3.Implies(z3.And(_k > 0, dvd(_k, _a - _b)),
                           fmod(_a, _k) == fmod(_b, _k)), [(fmod(_a, _k), fmod(_b, _k))]))
_c = V("c", I)
axiom("dvd.mul", forall([_a, _k, _c], z3.Implies(
    z3.Or(_c == imul(_a, _k), _c == -imul(_a, _k), _c == 0, _c == _k, _c == -_k),
    dvd(_k, _c)), [(imul(_a, _k), dvd(_k, _c))]))
axiom("dvd.triv", forall([_k, _c], z3.Implies(z3.Or(_c == 0, _c == _k, _c == -_k), dvd(_k, _c)),
                         [dvd(_k, _c)]))

SQ = SeqTheory("q", VSeq, Val)
ST = SeqTheory("s", Str, I)


def theory_of(sort):
    return SQ if sort == VSeq else ST


# ---- Strings --------------------------------------------------------------
istr = F("istr", I, Str)          # str(int)
_i, _s = V("i", I), V("s", Str)
axiom("istr.len", forall([_i], ST.len(istr(_i)) >= 1, [istr(_i)]))
axiom("istr.digit", forall([_i], z3.Implies(z3.And(0 <= _i, _i <= 9),
                           istr(_i) == ST.unit(48 + _i)), [istr(_i)]))
sstr = F("sstr", Str, I)     # inverse of istr (int of a canonical decimal)
axiom("istr.inj", forall([_i], sstr(istr(_i)) == _i, [istr(_i)]))
fstr = F("fstr", Flt, Str)   # str(float)

_lits = {}


def text_of_literal(t):
    """The text of a constant, or None."""
    if not z3.is_app(t):
        return None
    n = t.decl().name()
    if n.startswith("lit!") and t.num_args() == 0:
        import ast
        return ast.literal_eval(n[4:])
    if n == "s_unit" and z3.is_int_value(t.arg(0)):
        return chr(t.arg(0).as_long())
    return "" if n == "s_empty" else None


def strlit(text):
    """The Str constant of a Python literal, plus its defining axioms."""
    if text == "":
        return ST.empty
    if len(text) == 1:
        return ST.unit(z3.IntVal(ord(text)))
    if text in _lits:
        return _lits[text][0]
    c = V("lit!" + repr(text), Str)
    facts = [ST.len(c) == len(text)]
    if len(text) <= 64:
        facts += [ST.at(c, z3.IntVal(n)) == ord(ch) for n, ch in enumerate(text)]
    import re as _re
    if _re.fullmatch(r"0|-?[1-9]\d{0,30}", text, _re.ASCII):
        facts.append(istr(z3.IntVal(int(text))) == c)
    _lits[text] = (c, facts)
    return c


def literal_facts():
    out = []
    for c, fs in _lits.values():
        out.extend(fs)
    return out


_flits = {}


def fltlit(x):
    if x not in _flits:
        _flits[x] = V("flt!" + repr(x), Flt)
    return _flits[x]


# ---- well-formed Pip values ----------------------------------------------
pip = F("pip", Val, B)
_v = V("v", Val)
_q = V("q", VSeq)
axiom("pip.tag", forall([_v], z3.Implies(pip(_v), z3.Or(*[is_tag(_v, t) for t in sorted(PIPTAGS)])),
                        [pip(_v)]))
axiom("pip.atom", forall([_v], z3.Implies(z3.Or(*[is_tag(_v, t) for t in sorted(PIPTAGS - {"list", "block"})]),
                                          pip(_v)), [pip(_v)]))
pipseq = F("pipseq", VSeq, B)
axiom("pip.list", forall([_q], pip(Val.List(_q)) == pipseq(_q), [Val.List(_q)]))
axiom("pip.list2", forall([_v], z3.Implies(z3.And(pip(_v), is_tag(_v, "list")), pipseq(Val.items(_v))),
                          [pip(_v)]))
axiom("pipseq.at", forall([_q, _i], z3.Implies(z3.And(pipseq(_q), 0 <= _i, _i < SQ.len(_q)),
                                               pip(SQ.at(_q, _i))), [(pipseq(_q), SQ.at(_q, _i))]))
_w = F("pipseq_w", VSeq, I)
axiom("pipseq.intro", forall([_q], z3.Or(pipseq(_q), z3.And(0 <= _w(_q), _w(_q) < SQ.len(_q),
                             z3.Not(pip(SQ.at(_q, _w(_q)))))), [pipseq(_q)]))
axiom("pip.block", forall([_v], z3.Implies(is_tag(_v, "block"), pip(_v)), [pip(_v)]))

# ---- ghost (virtual) functions over values --------------------------------
truthy = F("truthy", Val, B)          # bool(v)
strOf = F("strOf", Val, Str)          # str(v)
reprOf = F("reprOf", Val, Str)        # repr(v)
numOf = F("numOf", Val, Val)          # v.toNumber()
intOfStr = F("intOfStr", Str, I)      # int(Scalar(s))
zeroForm = F("zeroForm", Str, B)      # zeroRgx matches

axiom("truthy.nil", z3.Not(truthy(Val.Nil)))
axiom("truthy.scalar", forall([_v], z3.Implies(is_tag(_v, "scalar"), truthy(_v) == z3.And(
    ST.len(Val.sv(_v)) > 0, z3.Not(zeroForm(Val.sv(_v))))), [truthy(_v)]))
axiom("truthy.list", forall([_v], z3.Implies(is_tag(_v, "list"),
                            truthy(_v) == (SQ.len(Val.items(_v)) > 0)), [truthy(_v)]))
axiom("truthy.pattern", forall([_v], z3.Implies(is_tag(_v, "pattern"),
                               truthy(_v) == (ST.len(Val.praw(_v)) > 0)), [truthy(_v)]))
_lo = z3.If(OInt.is_onone(Val.rlo(_v)), 0, OInt.oval(Val.rlo(_v)))
axiom("truthy.range", forall([_v], z3.Implies(is_tag(_v, "range"), truthy(_v) == z3.Or(
    OInt.is_onone(Val.rhi(_v)), _lo < OInt.oval(Val.rhi(_v)))), [truthy(_v)]))
axiom("strOf.scalar", forall([_v], z3.Implies(is_tag(_v, "scalar"), strOf(_v) == Val.sv(_v)), [strOf(_v)]))
axiom("strOf.pattern", forall([_v], z3.Implies(is_tag(_v, "pattern"), strOf(_v) == Val.praw(_v)), [strOf(_v)]))
axiom("strOf.nil", strOf(Val.Nil) == ST.empty)
axiom("strOf.int", forall([_i], strOf(Val.PInt(_i)) == istr(_i), [Val.PInt(_i)]))
axiom("strOf.str", forall([_s], strOf(Val.PStr(_s)) == _s, [Val.PStr(_s)]))
axiom("numOf.tag", forall([_v], z3.Implies(z3.Or(is_tag(_v, "scalar"), is_tag(_v, "nil"), is_tag(_v, "pattern"),
                                                 is_tag(_v, "block")),
                          z3.Or(is_tag(numOf(_v), "int"), is_tag(numOf(_v), "flt"))), [numOf(_v)]))
axiom("numOf.zero", forall([_v], z3.Implies(z3.Or(is_tag(_v, "nil"), is_tag(_v, "pattern"), is_tag(_v, "block")),
                                            numOf(_v) == Val.PInt(0)), [numOf(_v)]))
axiom("numOf.istr", forall([_i], z3.And(numOf(Val.Scalar(istr(_i))) == Val.PInt(_i),
                                        intOfStr(istr(_i)) == _i), [istr(_i)]))
axiom("intOfStr.digit", forall([_i], z3.Implies(z3.And(48 <= _i, _i <= 57), intOfStr(ST.unit(_i)) == _i - 48),
                               [intOfStr(ST.unit(_i))]))
axiom("numOf.digit", forall([_i], z3.Implies(z3.And(48 <= _i, _i <= 57), numOf(Val.Scalar(ST.unit(_i))) == Val.PInt(_i - 48)),
                            [numOf(Val.Scalar(ST.unit(_i)))]))
axiom("zero.istr", forall([_i], zeroForm(istr(_i)) == (_i == 0), [istr(_i)]))

# ---- numbers: Python int/float mixed arithmetic ---------------------------
NUMOPS = {}


def numop(name, intrel=None, ret=Val):
    f = F("n_" + name, Val, Val, ret)
    NUMOPS[name] = f
    x, y = V("x", I), V("y", I)
    if intrel is not None:
        axiom("n_%s.int" % name, forall([x, y], f(Val.PInt(x), Val.PInt(y)) == intrel(x, y),
                                        [f(Val.PInt(x), Val.PInt(y))]))
        u, w = V("u", Val), V("w", Val)
        axiom("n_%s.int2" % name, forall([u, w], z3.Implies(z3.And(is_tag(u, "int"), is_tag(w, "int")),
              f(u, w) == intrel(Val.ival(u), Val.ival(w))), [f(u, w)]))
    if ret == Val:
        u, w = V("u", Val), V("w", Val)
        num = lambda t: z3.Or(is_tag(t, "int"), is_tag(t, "flt"))
        axiom("n_%s.num" % name, forall([u, w], z3.Implies(z3.And(num(u), num(w)), num(f(u, w))), [f(u, w)]))
    return f


n_add = numop("add", lambda x, y: Val.PInt(x + y))
n_sub = numop("sub", lambda x, y: Val.PInt(x - y))
n_mul = numop("mul", lambda x, y: Val.PInt(imul(x, y)))
n_floordiv = numop("floordiv", lambda x, y: z3.If(y != 0, Val.PInt(fdiv(x, y)), Val.PInt(0)))
n_mod = numop("mod", lambda x, y: z3.If(y != 0, Val.PInt(fmod(x, y)), Val.PInt(0)))
n_lt = numop("lt", lambda x, y: x < y, B)
n_le = numop("le", lambda x, y: x <= y, B)
n_eq = numop("eq", lambda x, y: x == y, B)
# comparison of (non-NaN) numbers is a total order; NaN is excluded by
# assumption (no Pip literal or Scalar text converts to NaN)
_u, _w = V("u", Val), V("w", Val)
_num = lambda t: z3.Or(is_tag(t, "int"), is_tag(t, "flt"))
axiom("n_total", forall([_u, _w], z3.Implies(z3.And(_num(_u), _num(_w)),
                        z3.And(n_le(_u, _w) == z3.Not(n_lt(_w, _u)), z3.Not(z3.And(n_lt(_u, _w), n_lt(_w, _u))),
                               z3.Implies(n_lt(_u, _w), z3.Not(n_eq(_u, _w))),
                               z3.Or(n_lt(_u, _w), n_lt(_w, _u), n_eq(_u, _w)))),
                        [n_lt(_u, _w), n_le(_u, _w), n_eq(_u, _w)]))
axiom("n_eq.sym", forall([_u, _w], n_eq(_u, _w) == n_eq(_w, _u), [n_eq(_u, _w)]))
axiom("n_eq.refl", forall([_u], z3.Implies(_num(_u), n_eq(_u, _u)), [n_eq(_u, _u)]))
n_iszero = F("n_iszero", Val, B)
axiom("n_iszero", forall([_u], n_iszero(_u) == n_eq(_u, Val.PInt(0)), [n_iszero(_u)]))
n_int = F("n_int", Val, I)           # int(number) (truncation)
axiom("n_int.int", forall([_u], z3.Implies(is_tag(_u, "int"), n_int(_u) == Val.ival(_u)), [n_int(_u)]))
n_flt = F("n_flt", Val, Flt)
axiom("n_flt", forall([_u], z3.Implies(is_tag(_u, "flt"), n_flt(_u) == Val.fval(_u)), [n_flt(_u)]))
