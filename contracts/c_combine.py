"""C09: zipping, products, permutations, grouping, splitting and replacing."""
import itertools
import math
import re
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *

C09 = ["C09"]
XS = "execution.ProgramState."
PAIR = dict(self=PROG, list1=PIP, list2=OPT_PIP)


def collection(v):
    return isinstance(v, P.PipIterable)


def lists(tuples):
    return mklist([mklist(list(t)) for t in tuples])


@contract(XS + "CARTESIANPRODUCT", C09, PAIR, result=PIP, may_diverge=True)
def cartesianproduct(self, list1, list2):
    """All ways to take one item of each; nil if there is nothing to take from."""
    if list2 is None:
        if not collection(list1):
            return P.nil
        sources = [x for x in list1]
    else:
        sources = [list1, list2]
    if any(isinstance(x, (P.Nil, P.Block, P.Pattern)) for x in sources):
        return P.nil
    return lists(itertools.product(*sources))


@contract(XS + "PERMUTATIONS", C09, dict(self=PROG, iterable=PIP), result=PIP, opaque_calls=("JOIN",), may_diverge=True)
def permutations(self, iterable):
    if not collection(iterable):
        return P.nil
    ways = itertools.permutations(iterable)
    if isinstance(iterable, P.Scalar):
        return mklist([self.JOIN(w) for w in ways])
    return lists(ways)


@contract(XS + "COMBINATIONS", C09, dict(self=PROG, iterable=PIP, num=PIP), result=PIP, opaque_calls=("JOIN",), may_diverge=True)
def combinations(self, iterable, num):
    if not (collection(iterable) and isinstance(num, P.Scalar)) or int(num) < 0:
        return P.nil
    ways = itertools.combinations(iterable, int(num))
    if isinstance(iterable, P.Scalar):
        return mklist([self.JOIN(w) for w in ways])
    return lists(ways)


@contract(XS + "ZIP", C09, PAIR, result=PIP, may_diverge=True)
def zip_(self, list1, list2):
    """Rows of corresponding items, as many as the shortest has."""
    if list2 is None:
        if not collection(list1):
            return P.nil
        sources = [x for x in list1]
        if any(not collection(x) for x in sources):
            return P.nil
        return lists(zip(*sources))
    if not (collection(list1) and collection(list2)):
        return P.nil
    return mklist([mklist([x, y]) for x, y in zip(list1, list2)])


@contract(XS + "ZIPDEFAULT", C09, dict(self=PROG, lists=PIP, default=OPT_PIP), result=PIP, may_diverge=True)
def zipdefault(self, lists, default):
    fill = mkscalar("") if default is None else default
    if not collection(lists):
        return P.nil
    sources = [x for x in lists]
    if any(not collection(x) for x in sources):
        return P.nil
    return mklist([mklist(list(t)) for t in itertools.zip_longest(*sources, fillvalue=fill)])


@contract(XS + "DOT", C09, dict(self=PROG, rhs=PIP), result=PIP)
def dot(self, rhs):
    if isinstance(rhs, P.Pattern):
        return P.Pattern(rhs, re.DOTALL)
    return rhs


@contract(XS + "FLATTENALL", C09, dict(self=PROG, iterable=PIP), result=PIP,
          result_if=(lambda self, iterable: isinstance(iterable, (P.List, P.Range)), ('list',)), may_diverge=True)
def flattenall(self, iterable):
    """The items of a nested list that are not lists, in order."""
    if not isinstance(iterable, (P.List, P.Range)):
        return iterable
    out = []
    for x in iterable:
        if isinstance(x, (P.List, P.Range)):
            for y in self.FLATTENALL(x):
                out.append(y)
        else:
            out.append(x)
    return mklist(out)
