"""C21: sorting and extrema."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C21 = ["C21"]
XS = "execution.ProgramState."
ONE = dict(self=PROG, iterable=PIP)


def number_key(v):
    """Strings count as numbers, lists and bounded Ranges as lists of
    numbers, unbounded Ranges as [] and everything else as 0."""
    if isinstance(v, P.Pattern) or isinstance(v, P.Block) or v is P.nil:
        return 0
    if isinstance(v, P.Range) and hi(v) is None:
        return []
    return v.toNumber()


def by_number(iterable, reverse):
    if not isinstance(iterable, P.PipIterable):
        return P.nil
    try:
        return mklist(sorted(iterable, key=number_key, reverse=reverse))
    except TypeError:
        return P.nil


def by_text(iterable, reverse):
    if isinstance(iterable, P.Scalar):
        return mkscalar("".join(sorted(text(iterable), reverse=reverse)))
    if not isinstance(iterable, P.PipIterable):
        return P.nil
    return mklist(sorted(iterable, key=str, reverse=reverse))


@contract(XS + "SORTNUM", C21, ONE, result=PIP, may_diverge=True)
def sortnum(self, iterable):
    return by_number(iterable, False)


@contract(XS + "DESCENDINGNUM", C21, ONE, result=PIP, may_diverge=True)
def descendingnum(self, iterable):
    return by_number(iterable, True)


@contract(XS + "SORTSTRING", C21, ONE, result=PIP, may_diverge=True,
          raises=(TypeError,))
def sortstring(self, iterable):
    return by_text(iterable, False)


@contract(XS + "DESCENDINGSTRING", C21, ONE, result=PIP, may_diverge=True,
          raises=(TypeError,))
def descendingstring(self, iterable):
    return by_text(iterable, True)


def by_function(self, f, iterable, reverse):
    if not isinstance(f, P.Block):
        f, iterable = iterable, f
    if not (isinstance(f, P.Block) and isinstance(iterable, P.PipIterable)):
        return P.nil
    try:
        return mklist(sorted(iterable, key=lambda x: number_key(self.functionCall(f, [x])), reverse=reverse))
    except TypeError:
        return P.nil


KEYED = dict(self=PROG, keyFunction=PIP, iterable=PIP)


@contract(XS + "SORTKEYED", C21, KEYED, effects=("functionCall",), may_diverge=True)
def sortkeyed(self, keyFunction, iterable):
    return by_function(self, keyFunction, iterable, False)


@contract(XS + "DESCENDINGKEYED", C21, KEYED, effects=("functionCall",), may_diverge=True)
def descendingkeyed(self, keyFunction, iterable):
    return by_function(self, keyFunction, iterable, True)


def extreme(pick, iterable):
    """The first of the items with the greatest (least) numeric value."""
    if not isinstance(iterable, P.PipIterable):
        return P.nil
    try:
        return pick(iterable, key=lambda x: x.toNumber())
    except TypeError:
        return P.nil
    except ValueError:
        return P.nil


@contract(XS + "MAX", C21, ONE, result=PIP, may_diverge=True)
def max_(self, iterable):
    return extreme(max, iterable)


@contract(XS + "MIN", C21, ONE, result=PIP, may_diverge=True)
def min_(self, iterable):
    return extreme(min, iterable)


@contract("ptypes.List.toNumber", C21, dict(self=LIST))
def list_numbers(self):
    return [x.toNumber() for x in items(self)]
