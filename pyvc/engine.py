"""Symbolic interpreter for Python ASTs (verification-condition generator)."""
import ast
import sys
import types
import itertools
import z3
from . import logic as L
from . import canon
from .logic import Val, OInt, SQ, ST
from .values import *
from . import effects
from . import tokstream
from . import host
from . import maps
from .ctx import Ctx, Forall, occurs, TRUE, FALSE, has_quant


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class NormalExit(Exception):
    """while-test false inside the generic loop body."""


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Frame:
    __slots__ = ("locals", "glob", "parent", "name", "yields", "cls", "self_", "nonlocals")

    def __init__(self, glob, parent=None, name="", cls=None):
        self.locals = {}
        self.glob = glob
        self.parent = parent
        self.name = name
        self.yields = None
        self.cls = cls
        self.self_ = None
        self.nonlocals = ()


POISON = object()
_files = {}


def file_ast(path):
    if path not in _files:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                nm = getattr(n, "name", "<lambda>")
                ln = n.lineno
                if getattr(n, "decorator_list", None):
                    ln = min([ln] + [d.lineno for d in n.decorator_list])
                idx.setdefault((nm, ln), []).append(n)
        _files[path] = (tree, idx)
    return _files[path]


def function_node(fn):
    co = fn.__code__
    _, idx = file_ast(co.co_filename)
    c = idx.get((co.co_name, co.co_firstlineno), [])
    if len(c) > 1:
        args = co.co_varnames[:co.co_argcount]
        c2 = [n for n in c if tuple(a.arg for a in n.args.args) == args]
        c = c2 or c
    if not c:
        raise Unsupported(f"no source for {fn}")
    return c[0]


_gen_cache = {}


def is_generator_node(node):
    if node in _gen_cache:
        return _gen_cache[node]
    r = False
    if isinstance(node, ast.FunctionDef):
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
    _gen_cache[node] = r
    return r


class Interp:
    def __init__(self, ctx, world):
        self.c = ctx
        self.w = world              # World: modules, contracts, models
        self.target = None          # contract being verified
        self.depth = 0
        self.frames = []
        self.spec_mode = False
        self.may_diverge = False
        self.writes = None
        self.stats = {}
        self.prover = None
        self.con_stack = []
        self.obls = []
        self.try_stack = []
        self.prophecy, self.holes = None, []
        self.ghost = Obj(effects.Ghost, {"st": None}, 0)

    def note(self, loc):
        if self.writes is not None:
            self.writes[(loc[0], id(loc[1]), loc[2] if len(loc) > 2 else None)] = loc

    def obligation(self, name, goal, soft=False):
        """A proof obligation at the current program point."""
        hyps = [f for _, f in self.c.log]
        self.obls.append((name, hyps, goal, dict(self.c.recs)))

    def proved_inline(self, name, hyps):
        self.stats["inline_obligations"] = self.stats.get("inline_obligations", 0) + 1

    # ------------------------------------------------------------------
    # constructors
    # ------------------------------------------------------------------
    def new_plist(self, items=None, seq=None, cls=list):
        self.c.serial += 1
        return PList(items=items, seq=seq, serial=self.c.serial, cls=cls)

    def new_obj(self, cls, fields=None):
        self.c.serial += 1
        return Obj(cls, fields if fields is not None else {}, self.c.serial)

    def lit(self, text):
        t = L.strlit(text)
        if len(text) > 1:
            for f in L._lits[text][1]:
                self.c.define(f)
        return t

    # smart sequence constructors ---------------------------------------
    def slen(self, s):
        th = L.theory_of(s.sort())
        if z3.is_app(s):
            d = s.decl().name()
            p = th.name
            if d == p + "_empty":
                return z3.IntVal(0)
            if d == p + "_unit":
                return z3.IntVal(1)
            if d == p + "_cat":
                return self.slen(s.arg(0)) + self.slen(s.arg(1))
            if d == p + "_rev":
                return self.slen(s.arg(0))
            if d == p + "_upd":
                return self.slen(s.arg(0))
            if d == p + "_slice":
                return s.arg(2) - s.arg(1)      # well-formed by construction
            if d == p + "_rep":
                b = self.slen(s.arg(0))
                if z3.is_int_value(b) and b.as_long() == 1:
                    return s.arg(1)
            if d.startswith("lit!"):
                for txt, (cst, _) in L._lits.items():
                    if cst.get_id() == s.get_id():
                        return z3.IntVal(len(txt))
        ln = th.len(s)
        self.c.define(ln >= 0)
        return ln

    def sat_(self, s, i):
        th = L.theory_of(s.sort())
        return th.at(s, i)

    def cat(self, a, b):
        th = L.theory_of(a.sort())
        if a.get_id() == th.empty.get_id():
            return b
        if b.get_id() == th.empty.get_id():
            return a
        # associated to the right, so that equal concatenations look the same
        if z3.is_app(a) and a.decl().name() == th.name + "_cat":
            return th.cat(a.arg(0), self.cat(a.arg(1), b))
        return th.cat(a, b)

    # ------------------------------------------------------------------
    # boxing: engine value -> Val term
    # ------------------------------------------------------------------
    def box(self, v):
        if isinstance(v, Dyn):
            return v.t
        if v is None:
            return Val.PNone
        if isinstance(v, bool):
            return Val.PBool(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.PInt(z3.IntVal(int(v)))
        if isinstance(v, float):
            return Val.PFlt(L.fltlit(v))
        if isinstance(v, str):
            return Val.PStr(self.lit(v))
        if isinstance(v, Sym):
            return {"int": Val.PInt, "bool": Val.PBool, "str": Val.PStr, "flt": Val.PFlt}[v.kind](v.t)
        if isinstance(v, PList):
            return Val.PList(self.seq_of(v))
        if isinstance(v, (tuple, PTuple)):
            return Val.PTup(self.seq_of(v))
        if isinstance(v, SliceV):
            return Val.PSlice(self.oint(v.start), self.oint(v.stop))
        if isinstance(v, GenObj):
            if v.n is None and v.items is None and v.seq is None:
                raise Unsupported("boxing an infinite iterator")
            return Val.PList(self.seq_of(v))
        if isinstance(v, RangeV):
            return Val.PTup(self.seq_of(v))
        if isinstance(v, Obj):
            P = self.w.P
            if v.cls is P.Nil:
                return Val.Nil
            n = v.cls.__name__
            if v.cls in (P.Scalar, P.Pattern, P.List, P.Range, P.Block):
                f = v.fields
                try:
                    if n == "Scalar":
                        st = self.str_term(f["_value"])
                        if z3.is_app(st) and st.decl().eq(Val.sv) and self.tags(Dyn(st.arg(0))) == {"scalar"}:
                            t = st.arg(0)
                        else:
                            t = Val.Scalar(st)
                    elif n == "Pattern":
                        t = Val.Pattern(self.str_term(f["_raw"]), self.int_term(f["_flags"]))
                    elif n == "List":
                        t = Val.List(self.seq_of(f["_value"]))
                    elif n == "Range":
                        t = Val.Range(self.oint(f["_lower"]), self.oint(f["_upper"]))
                    else:
                        t = Val.Block(self.seq_of(f["_statements"]), self.box(f["_returnExpr"]))
                except KeyError as e:
                    raise Unsupported(f"object without field {e}")
                return t
            return self.w.box_obj(self, v)
        if isinstance(v, ExcObj):
            return Val.Opq(z3.Const("exc!" + v.cls.__name__, L.Ob), z3.IntVal(-1))
        r = self.w.box_host(self, v)
        if r is not None:
            return r
        raise Unsupported(f"cannot represent {type(v).__name__} {v!r:.60} as a value")

    def freeze(self, v):
        """v has been stored inside another value: later mutation through any
        alias would not be tracked, so forbid it."""
        if isinstance(v, Obj):
            if not v.frozen:
                self.c.setattr(v, "frozen", True)
                for f in v.fields.values():
                    self.freeze(f)
        elif isinstance(v, PList):
            if not v.frozen:
                self.c.setattr(v, "frozen", True)
                if v.items is not None:
                    for x in v.items:
                        self.freeze(x)
        elif isinstance(v, tuple):
            for x in v:
                self.freeze(x)
        return v

    def boxf(self, v):
        self.freeze(v)
        return self.box(v)

    def oint(self, v):
        if v is None:
            return OInt.onone
        if isinstance(v, Dyn):
            tg = self.tags(v)
            if tg <= {"none", "int", "bool"}:
                return z3.If(L.is_tag(v.t, "none"), OInt.onone, OInt.osome(Val.ival(v.t)))
            if self.has_tag(v, {"none"}):
                return OInt.onone
            return OInt.osome(self.int_term(v))
        return OInt.osome(self.int_term(v))

    def seq_of(self, v):
        """VSeq term of a list/tuple/iterator value (does not freeze)."""
        if isinstance(v, PList):
            if v.seq is not None:
                return v.seq
            return self.seq_of_items(v.items)
        if isinstance(v, tuple):
            return self.seq_of_items(v)
        if isinstance(v, PTuple):
            return v.seq
        if isinstance(v, GenObj):
            if v.seq is not None:
                return v.seq
            if v.items is not None:
                return self.seq_of_items(v.items)
            if v.n is None:
                if self.may_diverge:
                    # consuming it never ends (unless computing an item fails)
                    k = z3.Int(f"mk!{len(self.c.generics)}")
                    try:
                        self.explore_generic(k, None, lambda: v.elem(k))
                    except PyRaise:
                        raise Unsupported("infinite iterator whose items may raise")
                    raise Diverges()
                raise Unsupported("infinite iterator as a finite sequence")
            return self.map_seq(v.n, lambda k: self.box(v.elem(k)))
        if isinstance(v, RangeV):
            return self.seq_of(self.iter_view(v))
        if isinstance(v, Dyn):
            tg = self.tags(v)
            if tg == {"list"}:
                return Val.items(v.t)
            if tg == {"pylist"}:
                return Val.pitems(v.t)
            if tg == {"tuple"}:
                return Val.titems(v.t)
        if isinstance(v, Obj) and v.cls is self.w.P.List:
            return self.seq_of(v.fields["_value"])
        raise Unsupported(f"sequence of {v!r:.60}")

    def seq_of_items(self, items):
        s = SQ.empty
        for x in items:
            s = self.cat(s, SQ.unit(self.box(x)))
        return s

    def map_seq(self, n, elem, outer_key=None):
        """The sequence of length n whose k-th element is elem(k) (a Val
        term built for a generic k)."""
        c = self.c
        k = z3.Int(f"mk!{len(c.generics)}")
        paths = self.explore_generic(k, n, lambda: elem(k))
        return self._map_from_paths(k, n, paths)

    def explore_generic(self, k, n, thunk):
        c = self.c
        m = c.mark()
        sw = self.writes
        c.generics.append(k)
        st0 = self.ghost.fields["st"]

        def pure():
            r = thunk()
            if self.ghost.fields["st"] is not st0:
                raise Unsupported("effect inside a lazily evaluated expression")
            return r
        try:
            try:
                self._assume_range(k, n)
            except Infeasible:
                return []
            return c.explore(pure)
        finally:
            c.generics.pop()
            c.rollback(m)
            self.writes = sw

    def _assume_range(self, k, n):
        self.c.assume(k >= 0)
        if n is not None:
            self.c.assume(k < n)

    def merge(self, paths):
        """ite-merge [(pcs, defs, term)] into one term."""
        t = paths[-1][2]
        for pcs, _, e in reversed(paths[:-1]):
            if e.get_id() != t.get_id():
                t = z3.If(z3.And(*pcs) if pcs else TRUE, e, t)
        return t

    def _map_from_paths(self, k, n, paths):
        c = self.c
        if z3.is_int_value(n) and n.as_long() <= 0:
            return SQ.empty
        if not paths:
            # no feasible element: the sequence is empty
            return SQ.empty
        e = self.merge(paths)
        rng = z3.And(0 <= k, k < n)
        for pcs, defs, _ in paths:
            self.generalise(k, rng, pcs, defs)
        return self.named_map(k, n, e)

    def generalise(self, k, rng, pcs, defs):
        """Definitional facts established for a generic k, for all k."""
        for f in defs:
            guard = z3.And(rng, *pcs)
            if z3.is_quantifier(f) and f.is_forall():
                nv = f.num_vars()
                cs = [z3.Const(f"gv!{self.c.counter}!{i}!{f.var_name(i)}", f.var_sort(i)) for i in range(nv)]
                rs = list(reversed(cs))
                body = z3.substitute_vars(f.body(), *rs)
                if not occurs(k, body):
                    self.c.define(f if not pcs else Forall([k], z3.Implies(guard, f)))
                    continue
                pats = []
                for i in range(f.num_patterns()):
                    pt = f.pattern(i)
                    terms = [z3.substitute_vars(t, *rs) for t in pt.children()]
                    if any(occurs(k, t) for t in terms):
                        pats.append(tuple(terms))
                self.c.define(Forall([k] + cs, z3.Implies(guard, body), pats or None))
            elif occurs(k, f):
                self.c.define(Forall([k], z3.Implies(guard, f)))
            else:
                self.c.define(f if not pcs else Forall([k], z3.Implies(guard, f)))

    def named_map(self, k, n, e):
        """Sequence M with |M| = max(n,0) and M[j] = e[k:=j]."""
        c = self.c
        # identity map recognition: e == at(s,k), n == len(s)
        if z3.is_app(e) and e.decl().name() == "q_at" and e.arg(1).get_id() == k.get_id() \
                and not occurs(k, e.arg(0)):
            s = e.arg(0)
            ln = self.slen(s)
            if z3.simplify(ln - n).eq(z3.IntVal(0)) or c.entails(ln == n):
                return s
            if c.entails(z3.And(n >= 0, n <= ln)):
                return SQ.slice(s, z3.IntVal(0), n)
        M = canon.map_term(c, k, n, e)
        if M is not None:
            j = z3.Int("j!%d" % len(c.generics))
            c.define(SQ.len(M) == z3.If(n >= 0, n, 0) if not c.entails(n >= 0) else SQ.len(M) == n)
            c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SQ.at(M, j) == z3.substitute(e, (k, j))),
                               patterns=[SQ.at(M, j)]))
            return M
        key = ("map", n.sexpr(), z3.substitute(e, (k, z3.Int("K!"))).sexpr(), len(c.generics))
        M = c.memo.get(key)
        if M is None:
            M = c.fresh("map", L.VSeq)
            c.setitem(c.memo, key, M)
        j = z3.Int("j!%d" % len(c.generics))
        ej = z3.substitute(e, (k, j))
        c.define(SQ.len(M) == z3.If(n >= 0, n, 0) if not c.entails(n >= 0) else SQ.len(M) == n)
        c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SQ.at(M, j) == ej),
                           patterns=[SQ.at(M, j)]))
        return M

    # ------------------------------------------------------------------
    # tags of dynamic values
    # ------------------------------------------------------------------
    def tags(self, d):
        t = d.t
        tg = L.cons_tag(t)
        if tg:
            return frozenset([tg])
        r = self.c.tags.get(t.get_id())
        if r is not None:
            return r
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                return self.tags(Dyn(t.arg(1))) | self.tags(Dyn(t.arg(2)))
            n = t.decl().name()
            if n.startswith("n_") or n == "numOf":
                return L.NUMTAGS
            if n == "bret":
                return L.ALLTAGS
            if n == "q_at":
                hint = self.seq_tags(t.arg(0))
                if hint is not None:
                    return hint
        return L.ALLTAGS

    def seq_tags(self, s):
        """Known element tags of a sequence term, or None."""
        r = self.c.memo.get(("stags", s.get_id()))
        if r is not None:
            return r
        if z3.is_app(s):
            n = s.decl().name()
            if n == "items":
                return L.PIPTAGS
            if n in ("q_slice", "q_rev", "q_rep"):
                return self.seq_tags(s.arg(0))
            if n == "q_cat":
                a, b = self.seq_tags(s.arg(0)), self.seq_tags(s.arg(1))
                return a | b if a is not None and b is not None else None
            if n == "q_empty":
                return frozenset()
            if n == "q_unit":
                return self.tags(Dyn(s.arg(0)))
        return None

    def set_tags(self, d, tags):
        self.c.keep.append(d.t)
        self.c.setitem(self.c.tags, d.t.get_id(), frozenset(tags))

    def has_tag(self, d, want):
        """Fork: is d's tag in `want`?"""
        tg = self.tags(d)
        want = frozenset(want)
        if tg <= want:
            return True
        if not (tg & want):
            return False
        pos = sorted(tg & want)
        neg = sorted(tg - want)
        fp = z3.Or(*[L.is_tag(d.t, t) for t in pos])
        fn = z3.Or(*[L.is_tag(d.t, t) for t in neg])
        # the tag set is established (typing), so exactly one holds
        if self.c.choose([fp, fn]) == 0:
            self.set_tags(d, pos)
            return True
        self.set_tags(d, neg)
        return False

    def resolve(self, d, groups=None):
        """Fork until d has a single tag; returns it."""
        tg = self.tags(d)
        if len(tg) == 1:
            return next(iter(tg))
        lst = sorted(tg)
        i = self.c.choose([L.is_tag(d.t, t) for t in lst])
        self.set_tags(d, [lst[i]])
        return lst[i]

    def unbox(self, d):
        """Turn a Dyn of a primitive Python tag into Sym/None/PList."""
        if not isinstance(d, Dyn):
            return d
        tg = self.tags(d)
        if len(tg) != 1:
            return d
        (t,) = tg
        return self.unbox_as(d, t)

    def unbox_as(self, d, t):
        x = d.t
        cons = L.cons_tag(x) is not None
        if t == "none":
            return None
        if t == "int":
            return Sym("int", x.arg(0) if cons else Val.ival(x))
        if t == "bool":
            return Sym("bool", x.arg(0) if cons else Val.bval(x))
        if t == "str":
            return Sym("str", x.arg(0) if cons else Val.strv(x))
        if t == "flt":
            return Sym("flt", x.arg(0) if cons else Val.fval(x))
        if t == "pylist":
            s = x.arg(0) if cons else Val.pitems(x)
            if ("emptyseq", s.get_id()) in self.c.memo:
                s = SQ.empty
            return PList(seq=s, frozen=True)
        if t == "tuple":
            s = x.arg(0) if cons else Val.titems(x)
            items = self.spine(s)
            if items is not None:
                return tuple(items)
            return PTuple(s)
        if t == "slice":
            return SliceV(self.from_oint(x.arg(0) if cons else Val.slo(x)),
                          self.from_oint(x.arg(1) if cons else Val.shi(x)))
        return d

    def spine(self, s):
        """Concrete elements of a sequence term built from unit/cat."""
        n = s.decl().name() if z3.is_app(s) else ""
        if n == "q_empty":
            return []
        if n == "q_unit":
            return [self.unbox(Dyn(s.arg(0)))]
        if n == "q_cat":
            a = self.spine(s.arg(0))
            b = self.spine(s.arg(1))
            if a is not None and b is not None:
                return a + b
        return None

    def from_oint(self, o):
        if z3.is_app(o) and o.decl().name() == "onone":
            return None
        if z3.is_app(o) and o.decl().name() == "osome":
            return Sym("int", o.arg(0))
        if self.c.branch(OInt.is_onone(o)):
            return None
        return Sym("int", OInt.oval(o))

    # ------------------------------------------------------------------
    # coercions
    # ------------------------------------------------------------------
    def int_term(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(int(v))
        if isinstance(v, Sym):
            if v.kind == "int":
                return v.t
            if v.kind == "bool":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Dyn):
            t = self.resolve(v)
            if t in ("int", "bool"):
                return self.int_term(self.unbox_as(v, t))
        raise Unsupported(f"not an int: {v!r:.60}")

    def str_term(self, v):
        if isinstance(v, str):
            return self.lit(v)
        if isinstance(v, Sym) and v.kind == "str":
            return v.t
        if isinstance(v, Dyn) and self.resolve(v) == "str":
            return self.unbox_as(v, "str").t
        raise Unsupported(f"not a str: {v!r:.60}")

    def num_term(self, v):
        """Val term (int or flt) of a Python number."""
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Sym) and v.kind == "bool":
            return Val.PInt(self.int_term(v))
        return self.box(v)

    def is_int_like(self, v):
        return isinstance(v, (bool, int)) or (isinstance(v, Sym) and v.kind in ("int", "bool"))

    def is_str_like(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str")

    def is_flt_like(self, v):
        return isinstance(v, float) or (isinstance(v, Sym) and v.kind == "flt")

    def is_num_dyn(self, v):
        return isinstance(v, Dyn) and self.tags(v) <= L.NUMTAGS

    def mkint(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return Sym("int", t)

    def mkbool(self, t):
        if not has_quant(t):
            t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return Sym("bool", t)

    def mkstr(self, t):
        if z3.is_app(t):
            if t.get_id() == ST.empty.get_id():
                return ""
            if t.decl().name() == "s_unit" and z3.is_int_value(t.arg(0)):
                return chr(t.arg(0).as_long())
        return Sym("str", t)

    # truthiness ---------------------------------------------------------
    def bool_term(self, v):
        """z3 Bool for bool(v); may fork on types."""
        if isinstance(v, Sym):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "str":
                return self.slen(v.t) != 0
            return z3.Not(L.n_eq(Val.PFlt(v.t), Val.PInt(0)))
        if isinstance(v, Dyn):
            tg = self.tags(v)
            if tg <= L.PIPTAGS:
                if tg == {"nil"}:
                    return FALSE
                if tg == {"list"}:
                    return self.slen(self.seq_of(v)) != 0
                return L.truthy(v.t)
            if tg <= L.NUMTAGS:
                return z3.Not(L.n_eq(v.t, Val.PInt(0)))
            if len(tg) == 1:
                u = self.unbox(v)
                if isinstance(u, Dyn):
                    return self.w.truth_opaque(self, u)
                return self.bool_term(u)
            if self.has_tag(v, L.PIPTAGS):
                return self.bool_term(v)
            self.resolve(v)
            return self.bool_term(v)
        if isinstance(v, PList):
            if v.items is not None:
                return z3.BoolVal(bool(v.items))
            return self.slen(v.seq) != 0
        if isinstance(v, PTuple):
            return self.slen(v.seq) != 0
        if isinstance(v, Obj):
            P = self.w.P
            if issubclass(v.cls, P.PipType):
                r = self.call_method(v, "__bool__", [])
                return self.bool_term(r)
            return self.w.truth_obj(self, v)
        if isinstance(v, (Closure, BoundMethod, MatchV, GenObj, SliceV, ExcObj, RegexV)):
            return TRUE
        if isinstance(v, RangeV):
            return self.bool_term(self.len_(v))
        if isinstance(v, PDict):
            return z3.BoolVal(bool(v.d))
        if isinstance(v, PSet):
            return z3.BoolVal(bool(v.items)) if v.items is not None else self.slen(v.seq) != 0
        try:
            return z3.BoolVal(bool(v))
        except Exception:
            raise Unsupported(f"truth of {v!r:.60}")

    def truth(self, v):
        return self.c.branch(self.bool_term(v))

    # ------------------------------------------------------------------
    # classes / isinstance
    # ------------------------------------------------------------------
    def class_of(self, v):
        """Real Python class of v, or None when unknown."""
        w = self.w
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            return {"int": int, "bool": bool, "str": str, "flt": float}[v.kind]
        if isinstance(v, Dyn):
            tg = self.tags(v)
            if len(tg) == 1:
                (t,) = tg
                if t == "opq":
                    return w.opaque_class(self, v)
                return w.tag_class[t]
            return None
        if isinstance(v, PList):
            return v.cls
        if isinstance(v, PTuple):
            return tuple
        if isinstance(v, RangeV):
            return range
        if isinstance(v, SliceV):
            return slice
        if isinstance(v, PDict):
            return dict
        if isinstance(v, PSet):
            return set
        if isinstance(v, GenObj):
            return {"generator": types.GeneratorType, "map": map, "zip": zip,
                    "starmap": itertools.starmap}.get(v.pytype, types.GeneratorType)
        if isinstance(v, (Closure,)):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, ExcObj):
            return v.cls
        if isinstance(v, (MatchV, RegexV, TypeOf, SuperV)):
            return type(v)
        return type(v)

    def isinstance_(self, v, classes):
        """Returns Python bool (may fork)."""
        if isinstance(classes, tuple):
            cl = []
            for x in classes:
                if isinstance(x, tuple):
                    cl.extend(x)
                else:
                    cl.append(x)
        else:
            cl = [classes]
        for x in cl:
            if not isinstance(x, type):
                raise Unsupported(f"isinstance against {x!r:.60}")
        c = self.class_of(v)
        if c is not None:
            return issubclass(c, tuple(cl))
        want = {t for t in self.tags(v) if t != "opq" and issubclass(self.w.tag_class[t], tuple(cl))}
        if "literal" in self.tags(v) and "literal" not in want:
            # particular kinds of literal
            sub = [c.__name__ for c in cl if issubclass(c, self.w.tag_class["literal"])]
            if sub:
                if self.has_tag(v, want) if want else False:
                    return True
                if not self.has_tag(v, {"literal"}):
                    return False
                return self.c.branch(tokstream.is_kind(self, v, sub))
        if "opq" in self.tags(v):
            return self.w.isinstance_opaque(self, v, tuple(cl), want)
        return self.has_tag(v, want)

    # ------------------------------------------------------------------
    # equality
    # ------------------------------------------------------------------
    def note_pair(self, a, b):
        """Extensionality trigger for two sequence terms."""
        if a.get_id() != b.get_id():
            th = L.theory_of(a.sort())
            self.c.define(th.pair(a, b))

    def val_eq(self, a, b, depth=0):
        """z3 equality of Val terms with extensionality hints."""
        if a.get_id() == b.get_id():
            return TRUE
        ta, tb = L.cons_tag(a), L.cons_tag(b)
        if ta and tb and ta != tb:
            return FALSE
        if ta and tb and a.num_args() > 0:
            parts = []
            for x, y in zip(a.children(), b.children()):
                if x.sort() in (L.Str, L.VSeq):
                    parts.append(self.seq_eq(x, y))
                elif x.sort() == Val:
                    parts.append(self.val_eq(x, y, depth + 1))
                else:
                    parts.append(x == y)
            return z3.And(*parts) if len(parts) > 1 else parts[0]
        if ta or tb:
            t = ta or tb
            if t == "list":
                self.note_pair(a.arg(0) if ta else Val.items(a), b.arg(0) if tb else Val.items(b))
            elif t == "pylist":
                self.note_pair(a.arg(0) if ta else Val.pitems(a), b.arg(0) if tb else Val.pitems(b))
            elif t == "scalar":
                self.note_pair(a.arg(0) if ta else Val.sv(a), b.arg(0) if tb else Val.sv(b))
        else:
            # both list (unknown terms)
            pass
        return a == b

    def val_eq2(self, a, b):
        """Equality of two terms of any sort, with extensionality hints."""
        if a.sort() == Val:
            return self.val_eq(a, b)
        if a.sort() in (L.Str, L.VSeq):
            th = L.theory_of(a.sort())
            return z3.Implies(th.pair(a, b), a == b)
        return a == b

    def seq_eq(self, x, y):
        if x.get_id() == y.get_id():
            return TRUE
        self.note_pair(x, y)
        if x.sort() == L.VSeq:
            sx, sy = self.spine_terms(x), self.spine_terms(y)
            if sx is not None and sy is not None:
                if len(sx) != len(sy):
                    return FALSE
                return z3.And(*[self.val_eq(p, q) for p, q in zip(sx, sy)]) if sx else TRUE
        return x == y

    def spine_terms(self, s):
        n = s.decl().name() if z3.is_app(s) else ""
        if n == "q_empty":
            return []
        if n == "q_unit":
            return [s.arg(0)]
        if n == "q_cat":
            a = self.spine_terms(s.arg(0))
            b = self.spine_terms(s.arg(1))
            if a is not None and b is not None:
                return a + b
        return None

    def py_eq(self, a, b):
        """Python `a == b` as a value (bool or Sym bool)."""
        a, b = self.unbox(a), self.unbox(b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        # numbers
        if self.is_int_like(a) and self.is_int_like(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.mkbool(self.int_term(a) == self.int_term(b))
        num = lambda v: self.is_int_like(v) or self.is_flt_like(v) or self.is_num_dyn(v)
        if num(a) and num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            return self.mkbool(L.n_eq(self.num_term(a), self.num_term(b)))
        if self.is_str_like(a) and self.is_str_like(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x, y = self.str_term(a), self.str_term(b)
            if x.get_id() == y.get_id():
                return True
            self.note_pair(x, y)
            return self.mkbool(x == y)
        P = self.w.P
        if isinstance(a, Obj) and not issubclass(a.cls, P.PipType):
            return self.w.obj_eq(self, a, b)
        if isinstance(b, Obj) and not issubclass(b.cls, P.PipType):
            return self.w.obj_eq(self, b, a)
        if isinstance(a, (PDict, PSet)) or isinstance(b, (PDict, PSet)):
            raise Unsupported("dict/set equality")
        for x in (a, b):
            if isinstance(x, (Closure, BoundMethod, type, types.FunctionType, types.ModuleType)):
                return a is b
        # a token or operator against its text
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Dyn) and self.is_str_like(y) and self.tags(x) & tokstream.SYN:
                if self.tags(x) <= tokstream.TOK | tokstream.SYN or self.has_tag(x, tokstream.SYN):
                    return tokstream.eq(self, x, y)
                return self.py_eq(x, y)
        # classes known and different -> False (except int/float handled above)
        ca, cb = self.class_of(a), self.class_of(b)
        if ca is not None and cb is not None and ca is not cb:
            if not (issubclass(ca, cb) or issubclass(cb, ca)):
                return False
        if isinstance(a, GenObj) or isinstance(b, GenObj):
            return a is b
        # a Dyn that may be a number against a number: resolve
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Dyn) and (num(y) or self.is_str_like(y)):
                tg = self.tags(x)
                if num(y):
                    if self.has_tag(x, {"int", "flt", "bool"}):
                        if not self.is_num_dyn(x):
                            self.resolve(x)
                        return self.py_eq(x, y)
                    return False
                if self.has_tag(x, {"str"}):
                    return self.py_eq(x, y)
                return False
        # element numbers inside python lists: compare structurally
        return self.mkbool(self.val_eq(self.box(a), self.box(b)))

    def is_(self, a, b):
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_is(a, b)
        a, b = self.unbox(a), self.unbox(b)
        P = self.w.P
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, Dyn):
                    tg = self.tags(y)
                    if "none" not in tg:
                        return False
                    return self.has_tag(y, {"none"})
                return y is None
            if isinstance(x, (bool,)):
                if isinstance(y, Sym) and y.kind == "bool":
                    return self.mkbool(y.t == x)
                if isinstance(y, Dyn):
                    if self.has_tag(y, {"bool"}):
                        return self.is_(x, self.unbox(y))
                    return False
                return y is x
            if isinstance(x, Obj) and x.cls is P.Nil:
                if isinstance(y, Dyn):
                    return self.has_tag(y, {"nil"})
                return isinstance(y, Obj) and y.cls is P.Nil
            if isinstance(x, Dyn) and self.tags(x) == {"nil"}:
                if isinstance(y, Dyn):
                    return self.has_tag(y, {"nil"})
                return isinstance(y, Obj) and y.cls is P.Nil
        if a is b:
            return True
        if isinstance(a, Dyn) and isinstance(b, Dyn):
            if a.t.get_id() == b.t.get_id():
                return True
            if not (self.tags(a) & self.tags(b)):
                return False
            return self.w.dyn_identity(self, a, b)
        ops = self.w.modules["operators"].Operator
        for x, y in ((a, b), (b, a)):
            if type(x) is ops and isinstance(y, Dyn) and "oper" in self.tags(y):
                # operators are told apart by what they are (copies are only made of those in the tables)
                return self.mkbool(self.box(x) == y.t)
        if isinstance(a, (Obj, PList)) and isinstance(b, (Obj, PList)):
            return a is b
        if isinstance(a, (Obj, PList)) or isinstance(b, (Obj, PList)):
            return False       # a fresh heap object against a borrowed value
        if isinstance(a, (type, types.FunctionType, str)) or isinstance(b, (type, types.FunctionType)):
            return a is b
        raise Unsupported(f"identity of {a!r:.40} and {b!r:.40}")

    def type_is(self, a, b):
        def tagset(x):
            if isinstance(x, TypeOf):
                return {t: L.is_tag(x.dyn.t, t) for t in self.tags(x.dyn)}
            return None
        A, Bv = tagset(a), tagset(b)
        if A is not None and Bv is not None:
            if a.dyn.t.get_id() == b.dyn.t.get_id():
                return True
            com = set(A) & set(Bv)
            if "opq" in com:
                raise Unsupported("type comparison of opaque values")
            f = z3.Or(*[z3.And(A[t], Bv[t]) for t in sorted(com)]) if com else FALSE
            if self.c.branch(f):
                self.set_tags(a.dyn, com)
                self.set_tags(b.dyn, com)
                return True
            return False
        if A is None:
            A, Bv, a, b = Bv, A, b, a
        # b is a class
        want = [t for t in A if t != "opq" and self.w.tag_class[t] is b]
        return self.has_tag(a.dyn, want)

    # ------------------------------------------------------------------
    # environment
    # ------------------------------------------------------------------
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is POISON:
                    raise Unsupported(f"loop-local variable {name} read after/between iterations")
                return v
            f = f.parent
        g = fr.glob
        if name in g:
            return self.lift(g[name])
        b = g["__builtins__"] if "__builtins__" in g else __builtins__
        bd = b if isinstance(b, dict) else vars(b)
        if name in bd:
            return bd[name]
        raise PyRaise(ExcObj(NameError, (name,)))

    def lift(self, v):
        """Host object found in a module namespace -> engine value."""
        if isinstance(v, (bool, int, str, float, type(None), type, types.FunctionType, types.ModuleType,
                          types.BuiltinFunctionType)):
            return v
        if isinstance(v, (Sym, Dyn, Obj, PList, GenObj)):
            return v
        return self.w.lift(self, v)

    def assign_name(self, fr, name, v):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
            if f is None:
                raise Unsupported("global assignment")
            fr = f
        self.c.setitem(fr.locals, name, v)
        self.note(("env", fr, name))

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def x_Global(self, s, fr):
        raise Unsupported("global statement")

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.bind(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind(s.target, self.eval(s.value, fr), fr)

    def bind(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.set_attribute(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                i = self.eval_slice(t.slice, fr)
            else:
                i = self.eval(t.slice, fr)
            self.set_item(o, i, v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def list_slice_from(self, seq, k):
        return self.get_item(self.new_plist(seq=seq), SliceV(k, None, None))

    def unpack(self, t, v, fr):
        v = self.unbox(v)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        n = len(t.elts)
        items = None
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList) and v.items is not None:
            items = list(v.items)
        else:
            g = self.iter_view(v)
            if g.items is not None:
                items = list(g.items)
            else:
                if star:
                    k = star[0]
                    if k != n - 1 or g.n is None or g.seq is None:
                        raise Unsupported("starred unpacking of symbolic sequence")
                    if not self.c.branch(g.n >= n - 1):
                        raise PyRaise(ExcObj(ValueError))
                    for i, e in enumerate(t.elts[:-1]):
                        self.bind(e, g.elem(z3.IntVal(i)), fr)
                    rest = self.list_slice_from(g.seq, n - 1)
                    self.bind(t.elts[-1].value, rest, fr)
                    return
                if g.n is None:
                    raise PyRaise(ExcObj(ValueError))
                if not self.c.branch(g.n == n):
                    raise PyRaise(ExcObj(ValueError))
                items = [g.elem(z3.IntVal(i)) for i in range(n)]
        if star:
            k = star[0]
            if len(items) < n - 1:
                raise PyRaise(ExcObj(ValueError))
            mid = len(items) - (n - 1)
            vals = items[:k] + [self.new_plist(items[k:k + mid])] + items[k + mid:]
            for e, x in zip(t.elts, vals):
                self.bind(e.value if isinstance(e, ast.Starred) else e, x, fr)
            return
        if len(items) != n:
            raise PyRaise(ExcObj(ValueError))
        for e, x in zip(t.elts, items):
            self.bind(e, x, fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            rhs = self.eval(s.value, fr)
            new = self.inplace(s.op, cur, rhs)
            if new is not cur:
                self.assign_name(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.get_attribute(o, t.attr)
            rhs = self.eval(s.value, fr)
            new = self.inplace(s.op, cur, rhs)
            if new is not cur or not isinstance(new, PList):
                self.set_attribute(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            cur = self.get_item(o, i)
            rhs = self.eval(s.value, fr)
            self.set_item(o, i, self.inplace(s.op, cur, rhs))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, rhs):
        cur = self.unbox(cur)
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            self.list_extend(cur, rhs)
            return cur
        if isinstance(cur, PList) and isinstance(op, ast.Mult):
            v = self.binop(op, cur, rhs)
            self.set_plist(cur, v.items, v.seq)
            return cur
        return self.binop(op, cur, rhs)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.c.delitem(fr.locals, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval(t.slice, fr)
                if isinstance(o, PDict):
                    k = self.dict_key(o, i)
                    if k not in o.d:
                        raise PyRaise(ExcObj(KeyError))
                    self.c.delitem(o.d, k)
                elif isinstance(o, PList):
                    self.list_pop(o, i)
                else:
                    raise Unsupported("del of item")
            else:
                raise Unsupported("del target")

    def x_If(self, s, fr):
        if self.cond(s.test, fr):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def cond(self, test, fr):
        """Evaluate a test for control flow."""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                return all(self.cond(v, fr) for v in test.values)
            return any(self.cond(v, fr) for v in test.values)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return not self.cond(test.operand, fr)
        return self.truth(self.eval(test, fr))

    def x_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            raise PyRaise(ExcObj(AssertionError))

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.locals.get("__exc__")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        e = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcObj(e)
        if not isinstance(e, ExcObj):
            raise Unsupported(f"raise of {e!r:.60}")
        raise PyRaise(e)

    def x_Try(self, s, fr):
        try:
            try:
                sv = self.try_stack
                self.try_stack = sv + [(self.handler_classes(s, fr), bool(s.finalbody))]
                try:
                    self.exec_block(s.body, fr)
                finally:
                    self.try_stack = sv
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        cl = self.eval(h.type, fr)
                        cls = cl if isinstance(cl, tuple) else (cl,)
                        match = issubclass(pr.exc.cls, cls)
                    if match:
                        if h.name:
                            self.assign_name(fr, h.name, pr.exc)
                        self.c.setitem(fr.locals, "__exc__", pr.exc)
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (Infeasible, Unsupported):
            raise
        except (PyRaise, BreakEx, ContinueEx, ReturnEx):
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def handler_classes(self, s, fr):
        out = []
        for h in s.handlers:
            if h.type is None:
                out.append(BaseException)
            else:
                cl = self.eval(h.type, fr)
                out.extend(cl if isinstance(cl, tuple) else (cl,))
        return tuple(out)

    def x_With(self, s, fr):
        for i in s.items:
            v = self.eval(i.context_expr, fr)
            if not isinstance(v, host.FileV):
                raise Unsupported("with statement")
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, fr)
        self.exec_block(s.body, fr)

    def x_FunctionDef(self, s, fr):
        self.assign_name(fr, s.name, self.make_closure(s, fr))

    def x_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            self.assign_name(fr, a.asname or a.name.split(".")[0], mod)

    def x_ImportFrom(self, s, fr):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            self.assign_name(fr, a.asname or a.name, self.lift(getattr(mod, a.name)))

    def make_closure(self, node, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, fr, fr.glob, getattr(node, "name", "<lambda>"), defaults, kwd)

    # ---- loops -----------------------------------------------------------
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        view = self.iter_view(it)
        names = _target_names(s.target)

        def body(v):
            self.bind(s.target, v, fr)
            self.exec_block(s.body, fr)
        self.loop(view, body, lambda: self.exec_block(s.orelse, fr), names=(fr, names))

    def x_While(self, s, fr):
        # a concretely decided loop is simply executed
        def body(_):
            if not self.cond(s.test, fr):
                raise NormalExit()
            self.exec_block(s.body, fr)
        view = GenObj(n=None, elem=lambda k: None)
        self.loop(view, body, lambda: self.exec_block(s.orelse, fr), is_while=True)

    def loop(self, view, body, orelse=lambda: None, names=None, is_while=False):
        """Execute body(elem) for each element of view."""
        if view.items is not None and not is_while:
            items = view.items
            i = 0
            # iterate by position: the spine may be a live list
            while i < len(items):
                x = items[i]
                i += 1
                try:
                    body(x)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            orelse()
            return
        if is_while and self.w.concrete:
            while True:
                try:
                    body(None)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
                except NormalExit:
                    break
            orelse()
            return
        from .loops import run_symbolic_loop
        run_symbolic_loop(self, view, body, orelse, names, is_while)

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (bool, int, float, str, type(None))):
            return e.value
        raise Unsupported(f"constant {e.value!r}")

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.bind(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.eval_list(e.elts, fr))

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                g = self.iter_view(self.eval(x.value, fr))
                if g.items is None:
                    raise Unsupported("starred symbolic sequence")
                out.extend(g.items)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            res = self.new_plist([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(res, self.eval(x.value, fr))
                else:
                    self.list_append(res, self.eval(x, fr))
            return res
        return self.new_plist(self.eval_list(e.elts, fr))

    def e_Set(self, e, fr):
        return PSet(items=self.eval_list(e.elts, fr))

    def e_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kk = self.eval(k, fr)
            d.d[self.dict_key(d, kk)] = self.eval(v, fr)
        self.c.serial += 1
        d.serial = self.c.serial
        return d

    def dict_key(self, d, k):
        k = self.unbox(k)
        if isinstance(k, (str, int, bool, type(None), float, type, types.FunctionType)):
            return k
        if isinstance(k, tuple) and all(isinstance(x, (str, int, bool, type(None))) for x in k):
            return k
        if isinstance(k, Sym) and k.kind == "str":
            return ("sym", k.t.get_id(), self.c.keep.append(k.t))[:2]
        raise Unsupported(f"dict key {k!r:.60}")

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fr)
                    parts.append(self.w.format_spec(self, v, spec))
                elif p.conversion == ord("r"):
                    parts.append(self.repr_(v))
                else:
                    parts.append(self.str_(v))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        t = ST.empty
        for p in parts:
            t = self.cat(t, self.str_term(p))
        return self.mkstr(t)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.narrow_bool(v, False)
            if not isand and t:
                return self.narrow_bool(v, True)
        return v

    def narrow_bool(self, v, val):
        if isinstance(v, Sym) and v.kind == "bool":
            return val
        if isinstance(v, Sym) and v.kind == "int" and not val:
            return 0
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.mkbool(z3.Not(self.bool_term(v)))
        v = self.unbox(v)
        if isinstance(v, (int, float)):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        if self.is_int_like(v):
            t = self.int_term(v)
            if isinstance(e.op, ast.USub):
                return self.mkint(-t)
            if isinstance(e.op, ast.UAdd):
                return self.mkint(t)
            if isinstance(e.op, ast.Invert):
                return self.mkint(-t - 1)
        if isinstance(v, Dyn) and not (self.tags(v) <= L.NUMTAGS):
            self.resolve(v)
            v = self.unbox(v)
            if self.is_int_like(v):
                return self.e_unary_int(e.op, v)
        if self.is_flt_like(v) or self.is_num_dyn(v):
            if isinstance(e.op, ast.USub):
                return Dyn(self.w.num_unary(self, "neg", self.num_term(v)))
            if isinstance(e.op, ast.UAdd):
                return v
        raise PyRaise(ExcObj(TypeError))

    def e_unary_int(self, op, v):
        t = self.int_term(v)
        if isinstance(op, ast.USub):
            return self.mkint(-t)
        if isinstance(op, ast.Invert):
            return self.mkint(-t - 1)
        return self.mkint(t)

    def e_IfExp(self, e, fr):
        if host.has(self, "parse_args"):
            r = self.merged(e, fr)
            if r is not None:
                return r
        if self.cond(e.test, fr):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def flag(self, e, fr):
        """A condition on boolean attributes as a term."""
        if isinstance(e, ast.BoolOp):
            ts = [self.flag(x, fr) for x in e.values]
            return None if None in ts else z3.simplify((z3.And if isinstance(e.op, ast.And) else z3.Or)(*ts))
        if not isinstance(e, (ast.Attribute, ast.Name)):
            return None
        t = self.eval(e, fr)
        if not isinstance(t, bool) and not (isinstance(t, Sym) and t.kind == "bool"):
            return None
        return self.bool_term(t)

    def merged(self, e, fr):
        """A choice between constants as one value."""
        if isinstance(e, ast.Constant) and isinstance(e.value, (str, type(None))):
            return Dyn(self.box(e.value))
        if not isinstance(e, ast.IfExp):
            return None
        a, b = self.merged(e.body, fr), self.merged(e.orelse, fr)
        if a is None or b is None:
            return None
        t = self.flag(e.test, fr)
        if t is None:
            return None
        if z3.is_true(t) or z3.is_false(t):
            return a if z3.is_true(t) else b
        d = Dyn(z3.If(t, a.t, b.t))
        self.set_tags(d, self.tags(a) | self.tags(b))
        return d

    def e_Lambda(self, e, fr):
        return self.make_closure(e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        for k, v in self.target.attrs.items():
            if k.endswith("." + e.attr) and self.class_of(o).__name__ == k.split(".")[0]:
                return v
        return self.get_attribute(o, e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            i = self.eval_slice(e.slice, fr)
        else:
            i = self.eval(e.slice, fr)
        return self.get_item(o, i)

    def e_Slice(self, e, fr):
        return self.eval_slice(e, fr)

    def eval_slice(self, s, fr):
        ev = lambda x: self.eval(x, fr) if x is not None else None
        return SliceV(ev(s.lower), ev(s.upper), ev(s.step))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        n = len(e.ops)
        res = None
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rx, fr)
            res = self.compare(op, left, right)
            if i < n - 1:
                if not self.truth(res):
                    return self.narrow_bool(res, False)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.py_eq(a, b)
            return (not r) if isinstance(r, bool) else self.mkbool(z3.Not(r.t))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else self.mkbool(z3.Not(r.t))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return (not r) if isinstance(r, bool) else self.mkbool(z3.Not(self.bool_term(r)))
        nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self.order(nm, a, b)

    def order(self, nm, a, b):
        a, b = self.unbox(a), self.unbox(b)
        for x in (a, b):
            if isinstance(x, Dyn) and not self.tags(x) <= L.NUMTAGS:
                if self.tags(x) & L.PIPTAGS and self.has_tag(x, L.PIPTAGS):
                    raise PyRaise(ExcObj(TypeError))
                if not self.is_num_dyn(x):
                    self.resolve(x)
        a, b = self.unbox(a), self.unbox(b)
        prim = (int, float, str, bool)
        if isinstance(a, prim) and isinstance(b, prim):
            try:
                return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
                        "ge": lambda: a >= b}[nm]()
            except TypeError:
                raise PyRaise(ExcObj(TypeError))
        if self.is_int_like(a) and self.is_int_like(b):
            x, y = self.int_term(a), self.int_term(b)
            return self.mkbool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[nm])
        num = lambda v: self.is_int_like(v) or self.is_flt_like(v) or self.is_num_dyn(v)
        if num(a) and num(b):
            x, y = self.num_term(a), self.num_term(b)
            return self.mkbool({"lt": L.n_lt(x, y), "le": L.n_le(x, y), "gt": L.n_lt(y, x),
                                "ge": L.n_le(y, x)}[nm])
        if self.is_str_like(a) and self.is_str_like(b):
            return self.w.str_order(self, nm, self.str_term(a), self.str_term(b))
        r = self.w.order_other(self, nm, a, b)
        if r is not None:
            return r
        raise PyRaise(ExcObj(TypeError))

    # ---- arithmetic ---------------------------------------------------------
    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        on = type(op).__name__
        prim = (int, float, str, bool)
        if isinstance(a, prim) and isinstance(b, prim):
            return self.host_binop(on, a, b)
        for x in (a, b):
            if isinstance(x, Dyn) and not self.tags(x) <= L.NUMTAGS:
                tg = self.tags(x)
                if tg & L.NUMTAGS and self.has_tag(x, L.NUMTAGS):
                    continue
                self.resolve(x)
        a, b = self.unbox(a), self.unbox(b)
        if self.is_int_like(a) and self.is_int_like(b):
            return self.int_binop(on, a, b)
        num = lambda v: self.is_int_like(v) or self.is_flt_like(v) or self.is_num_dyn(v)
        if num(a) and num(b):
            return self.num_binop(on, a, b)
        if on == "Add":
            if self.is_str_like(a) and self.is_str_like(b):
                return self.mkstr(self.cat(self.str_term(a), self.str_term(b)))
            if isinstance(a, PList) and isinstance(b, PList):
                if a.items is not None and b.items is not None:
                    return self.new_plist(list(a.items) + list(b.items))
                return self.new_plist(seq=self.cat(self.seq_of(a), self.seq_of(b)))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (tuple, PTuple)) and isinstance(b, (tuple, PTuple)):
                return PTuple(self.cat(self.seq_of(a), self.seq_of(b)))
        if on == "Mult":
            for x, y in ((a, b), (b, a)):
                if self.is_int_like(y):
                    if self.is_str_like(x):
                        return self.mkstr(self.rep(self.str_term(x), self.int_term(y)))
                    if isinstance(x, PList):
                        yc = y if isinstance(y, int) else None
                        if x.items is not None and yc is not None:
                            return self.new_plist(list(x.items) * yc)
                        return self.new_plist(seq=self.rep(self.seq_of(x), self.int_term(y)))
                    if isinstance(x, tuple) and isinstance(y, int):
                        return x * y
        if on == "Mod" and self.is_str_like(a):
            return self.w.str_format(self, a, b)
        r = self.w.binop_other(self, on, a, b)
        if r is not None:
            return r
        raise PyRaise(ExcObj(TypeError))

    def rep(self, s, n):
        th = L.theory_of(s.sort())
        if z3.is_int_value(n):
            if n.as_long() <= 0:
                return th.empty
            if n.as_long() == 1:
                return s
        return th.rep(s, n)

    def host_binop(self, on, a, b):
        import operator as o
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv,
             "Mod": o.mod, "Pow": o.pow, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor,
             "LShift": o.lshift, "RShift": o.rshift}.get(on)
        if f is None:
            raise Unsupported(on)
        try:
            if on == "Pow" and isinstance(b, int) and abs(b) > 4096:
                raise Unsupported("huge power")
            if on == "LShift" and b > 100000:
                raise Unsupported("huge shift")
            return f(a, b)
        except (ZeroDivisionError, TypeError, ValueError, OverflowError) as e:
            raise PyRaise(ExcObj(type(e)))

    def int_binop(self, on, a, b):
        x, y = self.int_term(a), self.int_term(b)
        if on == "Add":
            return self.mkint(x + y)
        if on == "Sub":
            return self.mkint(x - y)
        if on == "Mult":
            return self.mkint(self.mul(x, y))
        if on in ("FloorDiv", "Mod", "Div"):
            if not self.c.branch(y != 0):
                raise PyRaise(ExcObj(ZeroDivisionError))
            if on == "Div":
                return self.w.true_div(self, x, y)
            return self.mkint(self.floordiv(x, y) if on == "FloorDiv" else self.mod(x, y))
        return self.w.int_op(self, on, a, b)

    def mul(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(x) or z3.is_int_value(y):
            return x * y
        for a, b in ((x, y), (y, x)):
            if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
                return a.arg(0) * self.mul(a.arg(1), b)
        return L.imul(x, y)

    def mod(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(y) and y.as_long() > 0:
            return x % y
        if self.c.entails(z3.And(x >= 0, x < y)):
            return x
        self.c.define(z3.Implies(y > 0, z3.And(L.fmod(x, y) >= 0, L.fmod(x, y) < y)))
        self.c.define(z3.Implies(y < 0, z3.And(L.fmod(x, y) <= 0, L.fmod(x, y) > y)))
        return L.fmod(x, y)

    def floordiv(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(y) and y.as_long() > 0:
            return x / y            # z3 div: floor for positive divisors
        return L.fdiv(x, y)

    def num_binop(self, on, a, b):
        x, y = self.num_term(a), self.num_term(b)
        if on == "Add":
            return self.numres(L.n_add(x, y))
        if on == "Sub":
            return self.numres(L.n_sub(x, y))
        if on == "Mult":
            return self.numres(L.n_mul(x, y))
        if on in ("FloorDiv", "Mod", "Div"):
            if not self.c.branch(z3.Not(L.n_eq(y, Val.PInt(0)))):
                raise PyRaise(ExcObj(ZeroDivisionError))
            if on == "FloorDiv":
                return self.numres(L.n_floordiv(x, y))
            if on == "Mod":
                return self.numres(L.n_mod(x, y))
        return self.w.num_op(self, on, x, y)

    def numres(self, t):
        return Dyn(t)

    # ---- strings -------------------------------------------------------------
    def str_(self, v):
        v = self.unbox(v)
        if isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str"):
            return v
        if isinstance(v, (int, float, bool, type(None))):
            return str(v)
        if isinstance(v, Sym):
            if v.kind == "int":
                return Sym("str", L.istr(v.t))
            if v.kind == "bool":
                return "True" if self.c.branch(v.t) else "False"
            return Sym("str", L.fstr(v.t))
        if isinstance(v, Dyn):
            tg = self.tags(v)
            if tg == {"scalar"}:
                return Sym("str", v.t.arg(0) if L.cons_tag(v.t) else Val.sv(v.t))
            if tg <= L.PIPTAGS or tg <= L.NUMTAGS:
                return self.mkstr(self.w.str_of_pip(self, v))
            if self.has_tag(v, L.PIPTAGS):
                return self.str_(v)
            self.resolve(v)
            u = self.unbox(v)
            if isinstance(u, Dyn):
                return self.w.str_opaque(self, u)
            return self.str_(u)
        if isinstance(v, Obj):
            P = self.w.P
            if issubclass(v.cls, P.PipType):
                if v.cls is P.Scalar:
                    return v.fields["_value"]
                return self.mkstr(self.w.str_of_pip(self, v))
            return self.w.str_obj(self, v)
        return self.w.str_other(self, v)

    def repr_(self, v):
        v = self.unbox(v)
        if isinstance(v, (int, float, str, type(None))):
            return repr(v)
        if isinstance(v, Dyn) and self.tags(v) <= L.PIPTAGS:
            return Sym("str", L.reprOf(v.t))
        if isinstance(v, Obj) and issubclass(v.cls, self.w.P.PipType):
            return Sym("str", L.reprOf(self.box(v)))
        return self.w.repr_other(self, v)

    # ---- len / containment / iteration ---------------------------------------
    def len_(self, v):
        v = self.unbox(v)
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, Sym) and v.kind == "str":
            return self.mkint(self.slen(v.t))
        if isinstance(v, PList):
            if v.cls is set:
                raise Unsupported("number of members of a set")
            return len(v.items) if v.items is not None else self.mkint(self.slen(v.seq))
        if isinstance(v, PTuple):
            return self.mkint(self.slen(v.seq))
        if isinstance(v, PDict):
            return len(v.d)
        if isinstance(v, PSet):
            if v.items is not None and len(v.items) <= 1:
                return len(v.items)
            return self.w.set_len(self, v)
        if isinstance(v, RangeV):
            g = self.iter_view(v)
            return len(g.items) if g.items is not None else self.mkint(g.n)
        if isinstance(v, Dyn):
            if len(self.tags(v)) > 1:
                self.resolve(v)
                return self.len_(v)
            return self.call_method(v, "__len__", [])
        if isinstance(v, Obj):
            return self.call_method(v, "__len__", [])
        raise PyRaise(ExcObj(TypeError))

    def contains(self, cont, x):
        cont = self.unbox(cont)
        if isinstance(cont, (str, Sym)) and self.is_str_like(cont):
            x = self.unbox(x)
            if isinstance(x, Dyn):
                self.resolve(x)
                x = self.unbox(x)
            if not self.is_str_like(x):
                raise PyRaise(ExcObj(TypeError))
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            return self.w.substr(self, cont, x)
        if isinstance(cont, PList) or isinstance(cont, (tuple, PTuple, PSet)):
            items = cont if isinstance(cont, tuple) else getattr(cont, "items", None)
            if items is not None:
                fs = []
                for y in items:
                    r = self.py_eq(y, x)
                    if r is True:
                        return True
                    if r is not False:
                        fs.append(self.bool_term(r))
                return self.mkbool(z3.Or(*fs)) if fs else False
            return self.mkbool(SQ.has(cont.seq, self.box(x)))
        if isinstance(cont, RangeV):
            x = self.unbox(x)
            if cont.step == 1 and self.is_int_like(x):
                t = self.int_term(x)
                return self.mkbool(z3.And(self.int_term(cont.lo) <= t, t < self.int_term(cont.hi)))
            raise Unsupported("in range")
        if isinstance(cont, PDict):
            return self.w.dict_contains(self, cont, x)
        if isinstance(cont, maps.MapV):
            return maps.contains(self, cont, x)
        if isinstance(cont, effects.DirOf):
            return effects.contains_dir(self, cont, x)
        if isinstance(cont, Dyn):
            if len(self.tags(cont)) > 1:
                self.resolve(cont)
                return self.contains(cont, x)
            return self.contains_obj(cont, x)
        if isinstance(cont, Obj):
            return self.contains_obj(cont, x)
        if isinstance(cont, GenObj):
            return self.contains(self.to_plist(cont), x)
        if isinstance(cont, (dict, set, frozenset)):
            return self.w.host_contains(self, cont, x)
        raise PyRaise(ExcObj(TypeError))

    def contains_obj(self, cont, x):
        cls = self.class_of(cont)
        f = self.find_method(cls, "__contains__")
        if f is not None:
            r = self.call(BoundMethod(cont, f, "__contains__"), [x], {})
            return self.mkbool(self.bool_term(r))
        if self.find_method(cls, "__iter__") is not None:
            return self.contains(self.iter_view(cont), x)
        raise PyRaise(ExcObj(TypeError))

    def iter_view(self, v):
        v = self.unbox(v)
        if isinstance(v, GenObj):
            return v
        if isinstance(v, (tuple,)):
            return GenObj(items=list(v))
        if isinstance(v, str):
            return GenObj(items=list(v))
        if isinstance(v, PList):
            if v.cls is set:
                raise Unsupported("iteration over a set")
            if v.items is not None:
                return GenObj(items=v.items)
            s = v.seq
            return GenObj(n=self.slen(s), elem=lambda k: self.seq_elem(s, k), seq=s)
        if isinstance(v, PTuple):
            s = v.seq
            return GenObj(n=self.slen(s), elem=lambda k: self.seq_elem(s, k), seq=s)
        if isinstance(v, PSet):
            # some arrangement of the members (a function of the set's sequence)
            q = self.seq_of_items(v.items) if v.items is not None else v.seq
            if v.items is not None and not all(self.is_int_like(x) for x in v.items) \
                    or v.items is None and self.seq_tags(q) != frozenset(["int"]):
                raise Unsupported("iteration over a set")
            return self.iter_view(PTuple(self.w.arranged_members(self, q)))
        if isinstance(v, PDict):
            return GenObj(items=list(v.d))
        if isinstance(v, Sym) and v.kind == "str":
            s = v.t
            return GenObj(n=self.slen(s), elem=lambda k: self.mkstr(ST.unit(ST.at(s, k))))
        if isinstance(v, RangeV):
            lo, hi, st = v.lo, v.hi, v.step
            if all(isinstance(x, int) for x in (lo, hi, st)):
                if len(range(lo, hi, st)) <= 300:
                    return GenObj(items=list(range(lo, hi, st)))
            if not isinstance(st, int):
                raise Unsupported("symbolic range step")
            a, b = self.int_term(lo), self.int_term(hi)
            if st == 1:
                n = b - a
            elif st == -1:
                n = a - b
            elif st > 0:
                n = (b - a + (st - 1)) / st
            else:
                n = (a - b + (-st - 1)) / (-st)
            if not self.c.entails(n >= 0):
                n = z3.If(n >= 0, n, z3.IntVal(0))
            n = z3.simplify(n)
            return GenObj(n=n, elem=lambda k: self.mkint(a + st * k))
        if isinstance(v, Dyn):
            if len(self.tags(v)) > 1:
                self.resolve(v)
                return self.iter_view(v)
            return self.iter_obj(v)
        if isinstance(v, Obj):
            return self.iter_obj(v)
        if isinstance(v, (dict, set, frozenset, list)):
            return GenObj(items=[self.lift(x) for x in v])
        raise PyRaise(ExcObj(TypeError))

    def iter_obj(self, v):
        cls = self.class_of(v)
        f = self.find_method(cls, "__iter__")
        if f is None:
            raise PyRaise(ExcObj(TypeError))
        return self.iter_view(self.call(BoundMethod(v, f, "__iter__"), [], {}))

    def seq_elem(self, s, k):
        sp = None
        if z3.is_int_value(k):
            sp = self.spine_terms(s)
            if sp is not None and 0 <= k.as_long() < len(sp):
                return self.unbox(Dyn(sp[k.as_long()]))
        t = SQ.at(s, k)
        d = Dyn(t)
        if z3.is_app(s) and s.decl().name() == "items":
            pass
        return self.unbox(d)

    def to_plist(self, g, hint=True):
        """list(g)"""
        src = self.unbox(g)
        g = self.iter_view(src)
        if hint and g.n is None and g.seq is None and g.items is None and isinstance(src, (Dyn, Obj)):
            self.call_method(src, "__len__", [])     # the length hint: raises ValueError for an infinite Range
        if g.items is not None:
            return self.new_plist(list(g.items))
        if g.n is None and g.seq is None:
            raise Unsupported("list() of an infinite iterator")
        r = self.new_plist(seq=self.seq_of(g))
        if isinstance(src, Sym) and src.kind == "str":
            self.c.keep.append(r.seq)
            self.c.setitem(self.c.memo, ("chars", r.seq.get_id()), src.t)
        return r

    # ---- items ---------------------------------------------------------------
    def norm_index(self, i, n):
        """Python index normalisation with bounds check; i, n z3 ints."""
        if self.c.branch(z3.And(i >= 0, i < n)):
            return i
        if self.c.branch(z3.And(i < 0, i >= -n)):
            return i + n
        raise PyRaise(ExcObj(IndexError))

    def get_item(self, o, i):
        o = self.unbox(o)
        i = self.unbox(i)
        if isinstance(o, PDict):
            return self.w.dict_get(self, o, i)
        if isinstance(o, maps.MapV):
            return maps.get(self, o, i)
        if isinstance(o, tokstream.TokStream):
            return tokstream.item(self, i)
        if isinstance(o, (dict,)):
            return self.w.host_dict_get(self, o, i)
        if isinstance(o, (str, tuple)) or isinstance(o, (PList, PTuple)) or (isinstance(o, Sym) and o.kind == "str"):
            if isinstance(i, SliceV):
                return self.slice_py(o, i)
            if isinstance(i, Dyn):
                self.resolve(i)
                i = self.unbox(i)
            if not self.is_int_like(i):
                raise PyRaise(ExcObj(TypeError))
            if isinstance(o, str):
                if isinstance(i, int):
                    try:
                        return o[i]
                    except IndexError:
                        raise PyRaise(ExcObj(IndexError))
                o = Sym("str", self.lit(o))
            items = o if isinstance(o, tuple) else getattr(o, "items", None)
            if items is not None and isinstance(i, int):
                try:
                    return items[i]
                except IndexError:
                    raise PyRaise(ExcObj(IndexError))
            it = self.int_term(i)
            if isinstance(o, Sym):
                k = self.norm_index(it, self.slen(o.t))
                return self.mkstr(ST.unit(ST.at(o.t, k)))
            s = self.seq_of(o)
            k = self.norm_index(it, self.slen(s))
            if items is not None:
                # fork over the concrete spine
                j = self.c.choose([k == n for n in range(len(items))])
                return items[j]
            return self.seq_elem(s, k)
        if isinstance(o, RangeV):
            if isinstance(i, SliceV):
                return self.w.range_slice(self, o, i)
            g = self.iter_view(o)
            if g.items is not None and isinstance(i, int):
                try:
                    return g.items[i]
                except IndexError:
                    raise PyRaise(ExcObj(IndexError))
            n = g.n if g.items is None else z3.IntVal(len(g.items))
            k = self.norm_index(self.int_term(i), n)
            return self.mkint(self.int_term(o.lo) + o.step * k)
        if isinstance(o, Dyn):
            tg = self.tags(o)
            if tg <= {"scalar", "list", "range"} and self.target is not None and "__getitem__" in self.target.opaque_calls:
                # some function of the value and the index (the __getitem__ of its class)
                a, b = o.t, self.boxf(i)
                # (which raises nothing for a slice: raises_if of its contracts)
                if not isinstance(i, SliceV) and self.c.branch(self.w.uf("exc!__getitem__", Val, Val, L.B)(a, b)):
                    raise PyRaise(ExcObj(IndexError))
                t = self.w.uf("call!__getitem__", Val, Val, Val)(a, b)
                self.c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(L.PIPTAGS)]))
                self.c.define(L.pip(t))
                d = Dyn(t)
                self.set_tags(d, L.PIPTAGS)
                return d
            if len(tg) > 1:
                self.resolve(o)
                return self.get_item(o, i)
            return self.call_method(o, "__getitem__", [i])
        if isinstance(o, Obj):
            return self.call_method(o, "__getitem__", [i])
        if isinstance(o, type):
            return o
        if isinstance(o, MatchV):
            return self.w.match_group(self, o, [i])
        raise PyRaise(ExcObj(TypeError))

    def clamp(self, x, n, default):
        """Python slice bound normalisation."""
        if x is None:
            return default
        x = self.unbox(x)
        if isinstance(x, Dyn):
            if self.has_tag(x, {"none"}):
                return default
        t = self.int_term(x)
        c = self.c
        if c.entails(z3.And(t >= 0, t <= n)):
            return t
        if c.branch(t < 0):
            if c.branch(t + n < 0):
                return z3.IntVal(0)
            return z3.simplify(t + n)
        if c.branch(t > n):
            return n
        return t

    def slice_py(self, o, sl):
        st, sp = self.unbox(sl.start), self.unbox(sl.stop)
        step = self.unbox(sl.step)
        conc = lambda x: x is None or isinstance(x, int)
        if conc(st) and conc(sp) and conc(step):
            if isinstance(o, (str, tuple)):
                return o[st:sp:step]
            if isinstance(o, PList) and o.items is not None:
                return self.new_plist(o.items[st:sp:step], cls=list)
        if isinstance(o, str):
            o = Sym("str", self.lit(o))
        isstr = isinstance(o, Sym)
        s = o.t if isstr else self.seq_of(o)
        th = ST if isstr else SQ
        n = self.slen(s)
        if step is not None and step != 1:
            if step == -1 and st is None and sp is None:
                r = th.rev(s)
            else:
                r = self.w.step_slice(self, s, st, sp, step)
        else:
            if st is None and sp is None:
                r = s
            else:
                i = self.clamp(st, n, z3.IntVal(0))
                j = self.clamp(sp, n, n)
                r = self.mkslice(s, i, j, n)
        if isstr:
            return self.mkstr(r)
        if isinstance(o, (tuple, PTuple)):
            return PTuple(r)
        return self.new_plist(seq=r)

    def mkslice(self, s, i, j, n):
        th = L.theory_of(s.sort())
        i, j = z3.simplify(i), z3.simplify(j)
        if i.eq(j):
            return th.empty
        if not self.c.branch(i < j):
            return th.empty
        if z3.is_int_value(i) and i.as_long() == 0 and j.eq(z3.simplify(n)):
            return s
        return th.slice(s, i, j)

    def set_item(self, o, i, v):
        o = self.unbox(o)
        i = self.unbox(i)
        if isinstance(o, PDict):
            self.w.dict_set(self, o, i, v)
            return
        if isinstance(o, maps.MapV):
            maps.put_value(self, o, i, v)
            return
        if isinstance(o, Dyn) and maps.home(self, o) is not None:
            maps.mutate_entry(self, o, lambda x: self.call_method(x, "__setitem__", [i, v]))
            return
        if isinstance(o, PList):
            self.check_mutable(o)
            if isinstance(i, SliceV):
                g = self.iter_view(v)
                items = o.items
                conc = lambda x: x is None or isinstance(x, int)
                if items is not None and g.items is not None and conc(i.start) and conc(i.stop) and i.step is None:
                    new = list(items)
                    new[i.start:i.stop] = list(g.items)
                    self.set_plist(o, new, None)
                    return
                s = self.seq_of(o)
                n = self.slen(s)
                a = self.clamp(i.start, n, z3.IntVal(0))
                b = self.clamp(i.stop, n, n)
                if self.c.branch(b < a):
                    b = a
                new = self.cat(self.cat(self.mkslice(s, z3.IntVal(0), a, n), self.seq_of(self.to_plist(g))),
                               self.mkslice(s, b, n, n))
                self.set_plist(o, None, new)
                return
            if isinstance(i, Dyn):
                self.resolve(i)
                i = self.unbox(i)
            if not self.is_int_like(i):
                raise PyRaise(ExcObj(TypeError))
            if o.items is not None and isinstance(i, int):
                new = list(o.items)
                try:
                    new[i] = v
                except IndexError:
                    raise PyRaise(ExcObj(IndexError))
                self.set_plist(o, new, None)
                return
            s = self.seq_of(o)
            k = self.norm_index(self.int_term(i), self.slen(s))
            self.set_plist(o, None, SQ.upd(s, k, self.boxf(v)))
            return
        if isinstance(o, (Dyn, Obj)):
            if isinstance(o, Dyn):
                self.resolve(o)
            self.call_method(o, "__setitem__", [i, v])
            return
        raise PyRaise(ExcObj(TypeError))

    # ---- list mutation ----------------------------------------------------
    def check_mutable(self, o):
        if o.frozen:
            raise Unsupported("frame: mutation of a borrowed or shared value")

    def set_plist(self, o, items, seq):
        self.check_mutable(o)
        oi, os = o.items, o.seq
        o.items, o.seq = items, seq

        def u():
            o.items, o.seq = oi, os
        self.c.undo(u)
        self.note(("plist", o))

    def list_append(self, o, v):
        if o.items is not None:
            self.set_plist(o, o.items + [v], None)
        else:
            self.set_plist(o, None, self.cat(o.seq, SQ.unit(self.boxf(v))))

    def list_extend(self, o, it):
        g = self.iter_view(it)
        if g.items is not None and o.items is not None:
            self.set_plist(o, o.items + list(g.items), None)
            return
        s = self.seq_of(o)
        if g.items is not None:
            for x in g.items:
                self.freeze(x)
        if g.n is None and g.seq is None and g.items is None:
            src = self.unbox(it)
            if isinstance(src, (Dyn, Obj)):
                self.call_method(src, "__len__", [])     # the length hint
            raise Unsupported("extend by an infinite iterator")
        self.set_plist(o, None, self.cat(s, self.seq_of(g)))

    def list_insert(self, o, i, v):
        i = self.unbox(i)
        if o.items is not None and isinstance(i, int):
            new = list(o.items)
            new.insert(i, v)
            self.set_plist(o, new, None)
            return
        s = self.seq_of(o)
        if isinstance(i, int) and i == 0:
            self.set_plist(o, None, self.cat(SQ.unit(self.boxf(v)), s))
            return
        n = self.slen(s)
        k = self.clamp(i, n, None)
        self.set_plist(o, None, self.cat(self.cat(self.mkslice(s, z3.IntVal(0), k, n), SQ.unit(self.boxf(v))),
                                         self.mkslice(s, k, n, n)))

    def list_pop(self, o, i=-1):
        i = self.unbox(i)
        if o.items is not None and isinstance(i, int):
            new = list(o.items)
            try:
                v = new.pop(i)
            except IndexError:
                raise PyRaise(ExcObj(IndexError))
            self.set_plist(o, new, None)
            return v
        s = self.seq_of(o)
        n = self.slen(s)
        k = self.norm_index(self.int_term(i), n)
        v = self.seq_elem(s, k)
        if z3.is_int_value(k) and k.as_long() == 0:
            new = self.mkslice(s, z3.IntVal(1), n, n)
        elif z3.simplify(k - (n - 1)).eq(z3.IntVal(0)):
            new = self.mkslice(s, z3.IntVal(0), n - 1, n)
        else:
            new = self.cat(self.mkslice(s, z3.IntVal(0), k, n), self.mkslice(s, k + 1, n, n))
        self.set_plist(o, None, new)
        return v

    # ---- attributes -----------------------------------------------------------
    def find_method(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def get_attribute(self, o, name):
        w = self.w
        if isinstance(o, types.ModuleType):
            if o is sys and name == "argv":
                return host.argv(self)
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                raise PyRaise(ExcObj(AttributeError))
        if isinstance(o, SuperV):
            mro = o.self_.cls.__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return BoundMethod(o.self_, k.__dict__[name], name)
            raise PyRaise(ExcObj(AttributeError))
        o = self.unbox(o)
        if isinstance(o, (host.OptParser, host.FileV)):
            return host.attribute(self, o, name)
        if isinstance(o, (tokstream.TokStream, tokstream.Hole)):
            return tokstream.TokMethod(name, o if isinstance(o, tokstream.Hole) else None)
        if isinstance(o, Obj):
            if name in o.fields:
                v = o.fields[name]
                return v
            if name == "__class__":
                return o.cls
            a = self.find_method(o.cls, name)
            if a is None:
                raise PyRaise(ExcObj(AttributeError))
            return self.bind_attr(o, a, name)
        if isinstance(o, Dyn):
            tg = self.tags(o)
            if len(tg) > 1:
                if tg <= L.PIPTAGS and w.virtual(name):
                    return BoundMethod(o, None, name)
                if not tg <= L.PIPTAGS and w.virtual(name):
                    if self.has_tag(o, L.PIPTAGS):
                        return BoundMethod(o, None, name)
                    return self.get_attribute(o, name)
                self.resolve(o)
                return self.get_attribute(o, name)
            if not tg:
                raise Infeasible()
            (t,) = tg
            if t == "opq":
                return w.opaque_attr(self, o, name)
            if t == "match":
                return w.host_method(o, "rxmatch", name)
            v = self.field_of(o, t, name)
            if v is not NotImplemented:
                return v
            a = self.find_method(w.tag_class[t], name)
            if a is None:
                raise PyRaise(ExcObj(AttributeError))
            return self.bind_attr(o, a, name)
        if isinstance(o, type):
            a = self.find_method(o, name)
            if a is None:
                if name == "__name__":
                    return o.__name__
                raise PyRaise(ExcObj(AttributeError))
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundMethod(o, a.__func__, name)
            return self.lift(a)
        if isinstance(o, SliceV) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, RangeV) and name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        if isinstance(o, ExcObj):
            if name == "args":
                return tuple(o.args)
        return w.attr_other(self, o, name)

    def bind_attr(self, o, a, name):
        if isinstance(a, types.FunctionType):
            return BoundMethod(o, a, name)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return BoundMethod(self.class_of(o), a.__func__, name)
        if isinstance(a, property):
            return self.call(a.fget, [o], {})
        return self.w.class_attr(self, o, a, name)

    def field_of(self, d, t, name):
        """Field of a frozen Pip object."""
        x = d.t
        cons = L.cons_tag(x) is not None
        arg = lambda n, acc: x.arg(n) if cons else acc(x)
        if t == "scalar" and name == "_value":
            return self.mkstr(arg(0, Val.sv))
        if t == "list" and name == "_value":
            key = ("fld", x.get_id())
            v = self.c.memo.get(key)
            if v is None:
                s = arg(0, Val.items)
                v = PList(seq=s, frozen=True)
                self.c.keep.append(x)
                self.c.setitem(self.c.memo, key, v)
            return v
        if t == "pattern":
            if name == "_raw":
                return self.mkstr(arg(0, Val.praw))
            if name == "_flags":
                return self.mkint(arg(1, Val.pflags))
            if name in ("_compiled", "_separator"):
                return None
        if t == "range":
            if name == "_lower":
                return self.from_oint(arg(0, Val.rlo))
            if name == "_upper":
                return self.from_oint(arg(1, Val.rhi))
        if t == "block":
            if name == "_statements":
                return PList(seq=arg(0, Val.bstmts), frozen=True)
            if name == "_returnExpr":
                return self.unbox(Dyn(arg(1, Val.bret)))
        if t in L.SYNTAX:
            return effects.field_of(self, d, t, name)
        return NotImplemented

    def set_attribute(self, o, name, v):
        if isinstance(o, Obj):
            if o.frozen:
                raise Unsupported("frame: attribute of a shared object assigned")
            self.c.setitem(o.fields, name, v)
            self.note(("fld", o, name))
            if name == "warnings" and host.has(self, "warnings"):
                effects.call(self, "warnings", [v])
            return
        if isinstance(o, Dyn):
            raise Unsupported("frame: attribute of a borrowed object assigned")
        raise Unsupported(f"attribute assignment on {o!r:.50}")

    # ---- calls ----------------------------------------------------------------
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return SuperV(fr.cls, fr.self_)
        f = self.eval(e.func, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("all", "any", "sum", "max", "min") and f in (
                all, any) and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.quantify(f is all, e.args[0], fr)
        args = []
        star_unknown = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                g = self.iter_view(v)
                if g.items is None:
                    star_unknown = (len(args), g)
                    args.append(StarArg(g))
                else:
                    args.extend(g.items)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, PDict):
                    raise Unsupported("** of unknown mapping")
                kwargs.update(d.d)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def call_method(self, o, name, args, kwargs=None):
        cls = self.class_of(o)
        f = self.find_method(cls, name)
        if f is None:
            raise PyRaise(ExcObj(TypeError if name.startswith("__") else AttributeError))
        return self.call(BoundMethod(o, f, name), list(args), kwargs or {})

    def call(self, f, args, kwargs):
        w = self.w
        if isinstance(f, tokstream.Raw):
            return self.inline(f.fn, args, kwargs)
        if isinstance(f, BoundMethod):
            if f.func is None or (isinstance(f.self_, (Dyn, Obj)) and w.virtual(f.name) and
                                  w.is_pip_method(self, f)):
                r = w.call_virtual(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            if f.func is None:
                raise Unsupported(f"virtual call {f.name}")
            return self.call_function(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_ast(f.node, f.glob, f.frame, args, kwargs, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m = self.find_method(f.cls, "__call__")
            if m is not None:
                return self.call_function(m, [f] + list(args), kwargs)
        return w.call_host(self, f, args, kwargs)

    def call_function(self, fn, args, kwargs):
        w = self.w
        model = w.models.get(fn)
        if model is not None:
            return model(self, args, kwargs)
        if not isinstance(fn, types.FunctionType):
            return w.call_host(self, fn, args, kwargs)
        if fn in w.host_fns and host.has(self, w.host_fns[fn]) and (w.host_fns[fn] != "parse" or host.has(self, "scan")):
            return host.module_call(self, w.host_fns[fn], fn, args, kwargs)
        if self.target is not None and self.target.effects and fn in w.effect_fns \
                and w.effect_fns[fn] in self.target.effects:
            return effects.bound_call(self, w.effect_fns[fn], fn, args, kwargs)
        con = w.contract_for(fn)
        if con is not None and not (self.target is not None and con is self.target and self.depth == 0):
            r = w.apply_contract(self, con, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        return self.inline(fn, args, kwargs)

    def inline(self, fn, args, kwargs):
        if fn.__code__.co_filename not in self.w.inline_files:
            return self.w.call_host(self, fn, args, kwargs)
        node = function_node(fn)
        defaults = [self.lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        glob = fn.__globals__
        parent = None
        if fn.__closure__:
            parent = Frame(glob)
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    parent.locals[n] = self.lift(cell.cell_contents)
                except ValueError:
                    pass
        cls = self.w.class_of_function(fn)
        return self.call_ast(node, glob, parent, args, kwargs, defaults, kwd, fn.__qualname__, cls)

    def call_ast(self, node, glob, parent, args, kwargs, defaults, kwdefaults, name, cls=None):
        if self.depth > 60:
            raise Unsupported("call depth")
        fr = Frame(glob, parent, name, cls)
        self.bind_args(node.args, fr, args, kwargs, defaults, kwdefaults, name)
        if cls is not None and node.args.args:
            fr.self_ = fr.locals.get(node.args.args[0].arg)
        self.depth += 1
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            gen = is_generator_node(node)
            if gen:
                return self.run_generator(node, fr)
            try:
                self.exec_block(node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    def run_generator(self, node, fr):
        out = self.new_plist([])
        fr.yields = out
        try:
            self.exec_block(node.body, fr)
        except ReturnEx:
            pass
        except InfiniteGen as g:
            return g.gen
        if out.items is not None:
            return GenObj(items=list(out.items))
        s = out.seq
        return GenObj(n=self.slen(s), elem=lambda k: self.seq_elem(s, k), seq=s)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        if f.yields is None:
            raise Unsupported("yield outside generator frame")
        self.list_append(f.yields, v)
        return None

    def e_YieldFrom(self, e, fr):
        self.list_extend(fr.yields, self.eval(e.value, fr))
        return None

    def bind_args(self, a, fr, args, kwargs, defaults, kwdefaults, name):
        pos = [p.arg for p in a.posonlyargs + a.args]
        L_ = fr.locals
        star = [x for x in args if isinstance(x, StarArg)]
        if star:
            # unknown number of positional arguments
            if a.vararg is None or len(pos) > len(args) - 1 or not isinstance(args[-1], StarArg) or len(star) > 1:
                return self.bind_star(a, fr, pos, args, kwargs, defaults, kwdefaults)
            for p, v in zip(pos, args):
                L_[p] = v
            rest = args[len(pos):]
            seq = self.seq_of_items([self.freeze(x) for x in rest[:-1]])
            L_[a.vararg.arg] = PTuple(self.cat(seq, self.seq_of(rest[-1].gen)))
            for p in a.kwonlyargs:
                if p.arg in kwargs:
                    L_[p.arg] = kwargs[p.arg]
                else:
                    L_[p.arg] = kwdefaults[p.arg]
            return
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(ExcObj(TypeError))
        for p, v in zip(pos, args):
            L_[p] = v
        if a.vararg is not None:
            L_[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs:
                    raise PyRaise(ExcObj(TypeError))
                continue
            if p in kwargs:
                L_[p] = kwargs[p]
            elif i >= len(pos) - nd:
                L_[p] = defaults[i - (len(pos) - nd)]
            else:
                raise PyRaise(ExcObj(TypeError))
        kwnames = [p.arg for p in a.kwonlyargs]
        for p in kwnames:
            if p in kwargs:
                L_[p] = kwargs[p]
            elif p in kwdefaults:
                L_[p] = kwdefaults[p]
            else:
                raise PyRaise(ExcObj(TypeError))
        extra = [k for k in kwargs if k not in pos and k not in kwnames]
        if extra:
            if a.kwarg is None:
                raise PyRaise(ExcObj(TypeError))
            L_[a.kwarg.arg] = PDict({k: kwargs[k] for k in extra})
        elif a.kwarg is not None:
            L_[a.kwarg.arg] = PDict({})

    def bind_star(self, a, fr, pos, args, kwargs, defaults, kwdefaults):
        """*args of unknown length passed to named parameters: fork on the
        number of arguments that matter."""
        if not isinstance(args[-1], StarArg):
            raise Unsupported("star argument in the middle")
        fixed = args[:-1]
        g = args[-1].gen
        need = len(pos) - len(fixed)
        lo = need - len(defaults)
        conds = [g.n == k for k in range(0, need + 1)] + [g.n > need]
        k = self.c.choose(conds)
        if k > need:
            if a.vararg is None:
                raise PyRaise(ExcObj(TypeError))
            raise Unsupported("surplus star arguments")
        items = [g.elem(z3.IntVal(i)) for i in range(k)]
        self.bind_args(a, fr, list(fixed) + items, kwargs, defaults, kwdefaults, "")

    def instantiate(self, cls, args, kwargs):
        w = self.w
        m = w.models.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return ExcObj(cls, args)
        if cls is w.P.Nil:
            return w.nil_value(self)
        if cls.__module__ in w.repo_modules or cls in w.own_classes:
            o = self.new_obj(cls)
            init = self.find_method(cls, "__init__")
            r = w.instantiate(self, cls, args, kwargs)
            if r is not NotImplemented:
                return r
            if isinstance(init, types.FunctionType):
                self.call_function(init, [o] + list(args), kwargs)
            elif args or kwargs:
                raise PyRaise(ExcObj(TypeError))
            return o
        return w.call_host(self, cls, args, kwargs)

    # ---- comprehensions --------------------------------------------------------
    def comp(self, e, fr, add):
        inner = Frame(fr.glob, fr, "<comp>", fr.cls)
        inner.self_ = fr.self_
        self.frames.append(inner)

        def gen(i):
            if i == len(e.generators):
                add(inner)
                return
            g = e.generators[i]
            it = self.iter_view(self.eval(g.iter, inner if i else fr))

            def body(v):
                self.bind(g.target, v, inner)
                for t in g.ifs:
                    if not self.cond(t, inner):
                        return
                gen(i + 1)
            self.loop(it, body, names=(inner, _target_names(g.target)))
        try:
            gen(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e, fr):
        out = self.new_plist([])
        self.comp(e, fr, lambda inner: self.list_append(out, self.eval(e.elt, inner)))
        return out

    def e_GeneratorExp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            # an infinite source is fine as long as the consumer is lazy
            g = e.generators[0]
            it = self.iter_view(self.eval(g.iter, fr))
            if it.items is None and it.n is None and it.seq is None:
                def elem(k):
                    inner = Frame(fr.glob, fr, "<gen>", fr.cls)
                    inner.self_ = fr.self_
                    self.bind(g.target, it.elem(k), inner)
                    return self.eval(e.elt, inner)
                return GenObj(n=None, elem=elem)
        l = self.e_ListComp(e, fr)
        if l.items is not None:
            return GenObj(items=list(l.items))
        s = l.seq
        return GenObj(n=self.slen(s), elem=lambda k: self.seq_elem(s, k), seq=s)

    def e_SetComp(self, e, fr):
        l = self.e_ListComp(e, fr)
        return PSet(items=l.items, seq=l.seq)

    def e_DictComp(self, e, fr):
        d = PDict()

        def add(inner):
            k = self.dict_key(d, self.eval(e.key, inner))
            d.d[k] = self.eval(e.value, inner)
        self.comp(e, fr, add)
        return d

    def quantify(self, is_all, gexp, fr):
        """all(...)/any(...) over a generator expression, without forking on
        the individual elements."""
        def go(i, inner):
            # returns z3 Bool of all/any over remaining generators
            if i == len(gexp.generators):
                return self.bool_term(self.eval(gexp.elt, inner))
            g = gexp.generators[i]
            view = self.iter_view(self.eval(g.iter, inner if i else fr))

            def one(v):
                self.bind(g.target, v, inner)
                for t in g.ifs:
                    if not self.cond(t, inner):
                        return TRUE if is_all else FALSE
                return go(i + 1, inner)
            if view.items is not None:
                fs = []
                for x in list(view.items):
                    if i == len(gexp.generators) - 1 or True:
                        b = one(x)
                        if is_all and z3.is_false(b):
                            return FALSE
                        if not is_all and z3.is_true(b):
                            return TRUE
                        fs.append(b)
                return (z3.And if is_all else z3.Or)(*fs) if fs else (TRUE if is_all else FALSE)
            return self.quant(is_all, view, one)
        inner = Frame(fr.glob, fr, "<quant>", fr.cls)
        inner.self_ = fr.self_
        self.frames.append(inner)
        try:
            if id(gexp) not in QLOOPS:
                m = self.c.mark()
                try:
                    return self.mkbool(go(0, inner))
                except (Unsupported, InfiniteGen):
                    if len(gexp.generators) != 1:
                        raise
                    self.c.rollback(m)
            self.exec(quant_loop(is_all, gexp), inner)
            return inner.locals["quant$"]
        finally:
            self.frames.pop()

    def quant(self, is_all, view, one):
        c = self.c
        c.counter += 1
        k = z3.Int(f"qk!{c.counter}")
        def run():
            try:
                return ("v", one(view.elem(k)))
            except PyRaise as p:
                return ("exc", p.exc)
        paths = self.explore_generic(k, view.n, run)
        rng = z3.And(0 <= k, k < view.n) if view.n is not None else 0 <= k
        good = []
        for p in paths:
            if p[2][0] == "exc":
                hyps = [f for _, f in c.log] + [k >= 0] + ([k < view.n] if view.n is not None else [])
                if self.prover.prove(hyps + p[0] + p[1], FALSE, timeout=2000) != "proved":
                    raise Unsupported(f"{p[2][1].cls.__name__} inside quantified expression")
            else:
                good.append(p)
        paths = good
        if not paths:
            return TRUE if is_all else FALSE
        body = self.merge([(p, d, o[1]) for p, d, o in paths])
        for pcs, defs, _ in paths:
            self.generalise(k, rng, pcs, defs)
        if is_all:
            return Forall([k], z3.Implies(rng, body))
        return z3.Not(Forall([k], z3.Implies(rng, z3.Not(body))))


QLOOPS = {}


def quant_loop(is_all, gexp):
    """The loop that all()/any() over a generator expression runs."""
    if id(gexp) not in QLOOPS:
        g = gexp.generators[0]

        def put(v):
            return ast.Assign(targets=[ast.Name("quant$", ast.Store())], value=ast.Constant(v))
        t = ast.UnaryOp(ast.Not(), gexp.elt) if is_all else gexp.elt
        loop = ast.For(target=g.target, iter=g.iter, orelse=[], body=[ast.If(
            test=ast.BoolOp(ast.And(), [*g.ifs, t]) if g.ifs else t, body=[put(not is_all), ast.Break()], orelse=[])])
        node = ast.If(test=ast.Constant(True), body=[put(is_all), loop], orelse=[])
        ast.copy_location(node, gexp)
        ast.fix_missing_locations(node)
        QLOOPS[id(gexp)] = (node, gexp)
    return QLOOPS[id(gexp)][0]


class StarArg:
    def __init__(self, gen):
        self.gen = gen


class InfiniteGen(Exception):
    def __init__(self, gen):
        self.gen = gen


def _target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        r = []
        for e in t.elts:
            r += _target_names(e)
        return r
    if isinstance(t, ast.Starred):
        return _target_names(t.value)
    return []
