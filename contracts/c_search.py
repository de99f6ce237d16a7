"""C20: searching, counting, membership and distinctness."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C20 = ["C20"]
XS = "execution.ProgramState."
RX = dict(effects=("assignRegexVars",), raises=(re.error,), may_diverge=True)


def listlike(v):
    return isinstance(v, (P.List, P.Range))


def finite(v):
    return not (isinstance(v, P.Range) and hi(v) is None)


# ---- the methods of the values ------------------------------------------------
@contract("ptypes.Scalar.__contains__", C20, dict(self=SCALAR, item=PIP), result=BOOL)
def scalar_contains(self, item):
    return isinstance(item, P.Scalar) and text(item) in text(self)


@contract("ptypes.Scalar.count", C20, dict(self=SCALAR, substring=PIP))
def scalar_count(self, substring):
    return text(self).count(text(substring)) if isinstance(substring, P.Scalar) else P.nil


@contract("ptypes.Scalar.index", C20, dict(self=SCALAR, searchItem=PIP, startIndex=INT), result=INT, raises=(TypeError, ValueError))
def scalar_index(self, searchItem, startIndex):
    if not isinstance(searchItem, P.Scalar):
        raise TypeError
    return text(self).index(text(searchItem), startIndex)


@contract("ptypes.List.count", C20, dict(self=LIST, item=PIP))
def list_count(self, item):
    return items(self).count(item)


@contract("ptypes.List.index", C20, dict(self=LIST, searchItem=PIP, startIndex=INT), result=INT, raises=(ValueError,))
def list_index(self, searchItem, startIndex):
    return items(self).index(searchItem, startIndex)


@contract("ptypes.Range.index", C20, dict(self=RANGE, searchItem=PIP, startIndex=INT), result=INT, raises=(TypeError, ValueError))
def range_index(self, searchItem, startIndex):
    if not isinstance(searchItem, P.Scalar):
        raise TypeError
    if searchItem not in self[startIndex:] or searchItem.toNumber() != int(searchItem):
        raise ValueError
    return int(searchItem) - (lo(self) or 0)


# ---- the operators ---------------------------------------------------------------
@contract(XS + "IN", C20, dict(self=PROG, needle=PIP, haystack=PIP), result=PIP, **RX)
def in_(self, needle, haystack):
    if isinstance(haystack, P.Scalar) and listlike(needle):
        return mklist([self.IN(x, haystack) for x in needle])
    if isinstance(haystack, P.Scalar) and isinstance(needle, P.Pattern):
        n = 0
        for m in needle.asRegex().finditer(text(haystack)):
            self.assignRegexVars(m)
            n += 1
        return mkscalar(n)
    if not isinstance(haystack, P.PipIterable):
        return mkscalar("0")
    if isinstance(haystack, P.List):
        return mkscalar(items(haystack).count(needle))
    if needle is P.nil:
        return P.nil
    return mkscalar(haystack.count(needle))


@contract(XS + "NOTIN", C20, dict(self=PROG, needle=PIP, haystack=PIP), result=PIP, raises=(re.error,), may_diverge=True)
def notin(self, needle, haystack):
    if isinstance(haystack, P.Scalar) and listlike(needle):
        return mklist([self.NOTIN(x, haystack) for x in needle])
    if isinstance(haystack, P.Scalar) and isinstance(needle, P.Pattern):
        return mkscalar(needle.asRegex().search(text(haystack)) is None)
    if not isinstance(haystack, P.PipIterable):
        return mkscalar(1)
    return mkscalar(needle not in haystack)


@contract(XS + "FIND", C20, dict(self=PROG, iterable=PIP, item=PIP), result=PIP, **RX)
def find(self, iterable, item):
    if listlike(item) and isinstance(iterable, (P.Scalar, P.Range)):
        return mklist([self.FIND(iterable, x) for x in item]) if finite(item) else P.nil
    if isinstance(item, P.Pattern) and isinstance(iterable, P.Scalar):
        m = item.asRegex().search(text(iterable))
        if m is None:
            return P.nil
        self.assignRegexVars(m)
        return mkscalar(m.start())
    if isinstance(iterable, P.List) or isinstance(item, P.Scalar) and isinstance(iterable, P.PipIterable):
        try:
            return mkscalar(iterable.index(item, 0))
        except ValueError:
            return P.nil
    return P.nil


@contract(XS + "FINDALL", C20, dict(self=PROG, iterable=PIP, item=PIP), result=PIP,
          cases=dict(iterable=[["list"], ["range"], ["scalar"], ["nil", "pattern", "block"]],
                     item=[["list", "range"], ["scalar"], ["nil", "pattern", "block"]]), opaque_calls=("index",), **dict(RX, raises=(re.error, TypeError)))
def findall(self, iterable, item):
    if listlike(item) and isinstance(iterable, (P.Scalar, P.Range)):
        return mklist([self.FINDALL(iterable, x) for x in item]) if finite(item) else P.nil
    out = []
    if isinstance(item, P.Pattern) and isinstance(iterable, P.Scalar):
        for m in item.asRegex().finditer(text(iterable)):
            self.assignRegexVars(m)
            out.append(mkscalar(m.start()))
        return mklist(out)
    if isinstance(iterable, P.List) or isinstance(item, P.Scalar) and isinstance(iterable, P.PipIterable):
        i = -1
        try:
            while True:
                i = iterable.index(item, i + 1)
                out.append(mkscalar(i))
        except ValueError:
            pass
        return mklist(out)
    return P.nil


@contract(XS + "UNIQUE", C20, dict(self=PROG, iterable=PIP), result=PIP, opaque_calls=("JOIN",))
def unique(self, iterable):
    if isinstance(iterable, P.Range):
        return iterable
    if not isinstance(iterable, (P.List, P.Scalar)):
        return P.nil
    out = []
    for x in iterable:
        if x not in out:
            out.append(x)
    if isinstance(iterable, P.Scalar):
        return self.JOIN(out)
    return mklist(out)
