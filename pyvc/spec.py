"""Vocabulary of contracts.  Everything here has two meanings: a native one
(executed by CPython on real objects, for counterexample replay) and a
symbolic one (interpreted by the verifier)."""
import argparse
import itertools
import re
import sys

P = None            # the real ptypes module, set by load()
X = None            # the real execution module
OPS = None          # the real operators module
ERR = None          # the real errors module


class _Such:
    """A specification result: any value satisfying the predicate."""

    def __init__(self, pred):
        self.pred = pred


class _Inf:
    """An infinite iterator: element i is elem(i)."""

    def __init__(self, elem):
        self.elem = elem


class Undefined(Exception):
    """Nothing is specified: a precondition on values met along the way."""


def undefined():
    raise Undefined()


def such(pred):
    return _Such(pred)


def infinite(elem):
    return _Inf(elem)


def write(text):
    """Write text to the standard output."""
    sys.stdout.write(text)


def declarations(table):
    """(names, group, action, nargs, dest, default) of each option."""
    return [(tuple(names), group, action, nargs, None, None) for group, names, action, nargs in table]


def command_line(table, argv):
    """What argparse makes of the arguments (None: of the process)."""
    p = argparse.ArgumentParser()
    groups = {}
    for names, group, action, nargs, _, _ in declarations(table):
        kw = {k: v for k, v in (("action", action), ("nargs", nargs)) if v is not None}
        if group is not None and group not in groups:
            groups[group] = p.add_mutually_exclusive_group()
        to = p if group is None else groups[group]
        to.add_argument(*names, **kw)
    return p.parse_args(argv)


def initial_state(list_format, warnings):
    """An interpreter before anything has run: no arguments, no program, default
    globals and one scope without variables."""
    st = object.__new__(X.ProgramState)
    P.List.outFormat = list_format
    st.err = object.__new__(ERR.ErrorReporter)
    st.err.warnings = warnings
    st.callDepth = -1
    st.args = []
    st.mainFunction = None
    st.specialVars = {"q": {"get": st.getq}, "r": {"get": st.getr, "set": st.setr}}
    st.localScope = X.LocalScope()
    st.scopes = [st.localScope]
    st.WIPEGLOBALS()
    return st


def lo(r):
    """Lower bound of a Range as an integer (a missing bound is 0)."""
    return r._lower if r._lower is not None else 0


def hi(r):
    return r._upper


def finite(r):
    return r._upper is not None


def text(s):
    """The characters of a Scalar."""
    return s._value


def items(l):
    """The items of a Pip List, as a Python list."""
    return l._value


def copyof(v):
    """v.copy(): opaque in freshness contracts, where an item must be shown
    to have been copied and not merely to be equal."""
    return v.copy()


def mutables(v, out=None):
    """ids of the mutable objects reachable from v (native)."""
    out = {} if out is None else out
    if isinstance(v, P.Scalar):
        out[id(v)] = v
    elif isinstance(v, P.List):
        out[id(v)] = v
        mutables(v.__dict__.get("_value"), out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            mutables(x, out)
    elif X is not None and isinstance(v, X.ProgramState):
        for d in [v.vars] + [s.vars for s in v.scopes]:
            for x in d.values():
                mutables(x, out)
    return out


def mklist(pylist):
    """A Pip List with exactly these items."""
    r = object.__new__(P.List)
    r._value = list(pylist)
    return r


def rawscalar(text):
    """The Scalar with exactly this text."""
    r = object.__new__(P.Scalar)
    r._value = text
    return r


def mktext(x):
    """The text of a Scalar made from a Python string or number, or from a
    Pip value: numbers are written in decimal, without a fractional part of
    zero."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, float) and str(x).endswith(".0"):
        return str(int(x))
    return str(x)


def mkscalar(x):
    """The Scalar of a Python string, int, bool or float."""
    return rawscalar(mktext(x))


def mkrange(a, b):
    """The Range a..b (None = unbounded)."""
    r = object.__new__(P.Range)
    r._lower, r._upper = a, b
    return r


def bag(xs):
    """The items and how often each occurs, in no order."""
    return sorted((type(x).__name__, repr(x)) for x in xs)


def elements(v):
    """The elements of a finite Pip iterable as a Python list."""
    if isinstance(v, P.List):
        return list(v._value)
    if isinstance(v, P.Range):
        a = v._lower if v._lower is not None else 0
        return [mkscalar(a + i) for i in range(max(0, v._upper - a))]
    if isinstance(v, P.Scalar):
        return [rawscalar(ch) for ch in v._value]
    if isinstance(v, P.Pattern):
        return [rawscalar(ch) for ch in v._raw]
    return []


def implies(a, b):
    return (not a) or b


def scalar_int(s):
    """Integer meaning of a Scalar text: its leading optional minus sign and
    digits (after leading white space), 0 if there are none."""
    t = s.lstrip()
    m = re.match(r"-?\d+", t)
    if m:
        return int(m.group())
    return 0


NUMBER_WITH_FRACTION = r"-?(\d+\.\d*(?:e[+-]\d+)?|\d+(?:e[+-]\d+)|\.\d+(?:e[+-]\d+)?)"


def scalar_num(s):
    """Numeric meaning of a Scalar text: the longest numeric prefix after
    leading white space, a float if it has a fraction or an exponent, an
    integer otherwise, 0 if there is none."""
    t = s.lstrip()
    m = re.match(NUMBER_WITH_FRACTION, t)
    if m:
        return float(m.group())
    m = re.match(r"-?\d+", t)
    if m:
        return int(m.group())
    return 0


def zero_form(s):
    """Is the text some spelling of zero (0, 00, 0.0, .0, 0.)?"""
    return bool(re.match(r"^(0+(\.0*)?|0*\.0+)$", s))


def mkpattern(raw, flags):
    """The Pattern with this regular expression and these flags."""
    return P.Pattern(raw, flags)


def mkblock(statements, expr):
    """The Block (function) with these statements and this value."""
    return P.Block(statements, expr)


def same(a, b):
    """Structural, type-strict equality of two values (native version)."""
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return False
    if isinstance(a, P.Scalar):
        return a._value == b._value and type(a._value) is type(b._value)
    if isinstance(a, P.Pattern):
        return a._raw == b._raw and int(a._flags) == int(b._flags)
    if isinstance(a, P.List):
        return len(a._value) == len(b._value) and all(same(x, y) for x, y in zip(a._value, b._value))
    if isinstance(a, P.Range):
        return a._lower == b._lower and a._upper == b._upper
    if isinstance(a, P.Block):
        return same(a._statements, b._statements) and same(a._returnExpr, b._returnExpr)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, re.Match):
        return a.re == b.re and a.string == b.string and a.regs == b.regs
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, slice):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if X is not None and isinstance(a, X.ProgramState):
        if not same(getattr(a, "_trace", None), getattr(b, "_trace", None)):
            return False
        if not all(same(getattr(a, k), getattr(b, k)) for k in getattr(a, "_fields", ())):
            return False
        if not getattr(a, "_scoped", False):
            return True
        if not (same(a.vars, b.vars) and a.callDepth == b.callDepth and len(a.scopes) == len(b.scopes)):
            return False
        for x, y in list(zip(a.scopes, b.scopes)) + [(a.localScope, b.localScope)]:
            if x is None or y is None:
                if x is not y:
                    return False
                continue
            if not (same(x.vars, y.vars) and same(x.function, y.function) and same(x.argList, y.argList)):
                return False
        at = lambda s: [i for i, x in enumerate(s.scopes) if x is s.localScope]
        return at(a) == at(b)
    if X is not None and isinstance(a, X.LocalScope):
        return same(a.vars, b.vars) and same(a.function, b.function) and same(a.argList, b.argList)
    if X is not None and isinstance(a, X.Lval):
        return same(a.base, b.base) and same(a.sliceList, b.sliceList) and same(a.evaluated, b.evaluated)
    if X is not None and isinstance(a, X.tokens.Token):
        return a.__dict__ == b.__dict__
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def isnum(s):
    return isinstance(s, P.Scalar)


def num(v):
    """The numeric value of a Scalar (a Python int or float)."""
    return v.toNumber()


# ---- growing a parse tree (bubble) -----------------------------------------------
def graft(op, left, items):
    """The tree of `left op items`, op taking as its left operand as much of
    the end of left as binds more strongly."""
    return graft_step(op, left, items)


def graft_step(op, left, items):
    if isinstance(left, list):
        o = left[0]
        if o.arity in (2, 3) and (o.precedence < op.precedence or o.precedence == op.precedence and op.associativity == "R"):
            return left[:-1] + [graft(op, left[-1], items)]
        if op is OPS.chain and o is OPS.chain:
            return left + items
    return [op, left] + items
