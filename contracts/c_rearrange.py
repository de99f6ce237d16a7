"""C09: operators that build and rearrange lists."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C09 = ["C09"]
XS = "execution.ProgramState."
AB = dict(self=PROG, lhs=PIP, rhs=PIP)


def listlike(v):
    return isinstance(v, (P.List, P.Range))


def atomic(v):
    return isinstance(v, (P.Scalar, P.Pattern)) or v is P.nil


def bounded(v):
    return not isinstance(v, P.Range) or finite(v)


def as_list(v):
    """The items of a list-like value; a string, pattern or nil stands for
    the one-item list of itself."""
    return [v] if atomic(v) else elements(v)


def bounded_items(v):
    return not isinstance(v, P.List) or all(bounded(x) for x in items(v))


BND = lambda self, lhs, rhs: bounded(lhs) and bounded(rhs)


@contract(XS + "APPENDELEM", C09, AB, result=PIP, requires=BND)
def appendelem(self, lhs, rhs):
    if isinstance(lhs, P.Block):
        return P.nil
    return mklist(as_list(lhs) + [rhs])


@contract(XS + "PREPENDELEM", C09, AB, result=PIP, requires=BND)
def prependelem(self, lhs, rhs):
    if isinstance(lhs, P.Block):
        return P.nil
    return mklist([rhs] + as_list(lhs))


@contract(XS + "APPENDLIST", C09, AB, result=PIP, requires=BND)
def appendlist(self, lhs, rhs):
    if isinstance(lhs, P.Block) or isinstance(rhs, P.Block):
        return P.nil
    return mklist(as_list(lhs) + as_list(rhs))


@contract(XS + "REPEATLIST", C09, AB, result=PIP, requires=BND)
def repeatlist(self, lhs, rhs):
    if isinstance(lhs, P.Block) or not isinstance(rhs, P.Scalar):
        return P.nil
    return mklist(as_list(lhs) * int(rhs))


@contract(XS + "ENUMERATE", C09, dict(self=PROG, iterable=PIP), result=PIP)
def enumerate_(self, iterable):
    if not isinstance(iterable, P.PipIterable) or not bounded(iterable):
        return P.nil
    xs = elements(iterable)
    return mklist([mklist([mkscalar(i), xs[i]]) for i in range(len(xs))])


@contract(XS + "REVERSE", C09, dict(self=PROG, rhs=PIP), result=PIP)
def reverse(self, rhs):
    if isinstance(rhs, P.Scalar):
        return rawscalar(text(rhs)[::-1])
    if listlike(rhs) and bounded(rhs):
        xs = elements(rhs)
        n = len(xs)
        return mklist([xs[n - 1 - i] for i in range(n)])
    return P.nil


@contract(XS + "REFLECT", C09, dict(self=PROG, iterable=PIP), result=PIP)
def reflect(self, iterable):
    if isinstance(iterable, P.Scalar):
        return rawscalar(text(iterable) + text(iterable)[::-1])
    if listlike(iterable) and bounded(iterable):
        xs = elements(iterable)
        n = len(xs)
        return mklist(xs + [xs[n - 1 - i] for i in range(n)])
    return P.nil


@contract(XS + "PALINDROMIZE", C09, dict(self=PROG, iterable=PIP), result=PIP)
def palindromize(self, iterable):
    if isinstance(iterable, P.Scalar):
        s = text(iterable)
        return rawscalar(s + s[:max(0, len(s) - 1)][::-1])
    if listlike(iterable) and bounded(iterable):
        xs = elements(iterable)
        n = len(xs)
        return mklist(xs + [xs[n - 2 - i] for i in range(max(0, n - 1))])
    return P.nil


@contract(XS + "QUADREFLECT", C09, dict(self=PROG, iterable=PIP), result=PIP, opaque_calls=["REFLECT"], may_diverge=True,
          raises=(TypeError,))
def quadreflect(self, iterable):
    r = self.REFLECT(iterable)
    if r is P.nil:
        return P.nil
    return mklist([self.REFLECT(row) for row in r])


@contract(XS + "QUADPALINDROMIZE", C09, dict(self=PROG, iterable=PIP), result=PIP,
          opaque_calls=["PALINDROMIZE"], may_diverge=True,
          raises=(TypeError,))
def quadpalindromize(self, iterable):
    r = self.PALINDROMIZE(iterable)
    if r is P.nil:
        return P.nil
    return mklist([self.PALINDROMIZE(row) for row in r])


@contract(XS + "IDENTITYMATRIX", C09, dict(self=PROG, rhs=PIP), result=PIP)
def identitymatrix(self, rhs):
    if not isinstance(rhs, P.Scalar):
        return P.nil
    n = int(rhs)
    return mklist([mklist([mkscalar(1 if r == c else 0) for c in range(n)]) for r in range(n)])


def grid(rows, cols, f):
    if cols is None:
        cols = rows
    if not (isinstance(rows, P.Scalar) and isinstance(cols, P.Scalar)):
        return P.nil
    n, m = int(rows), int(cols)
    return mklist([mklist([f(r, c) for c in range(m)]) for r in range(n)])


@contract(XS + "ONEGRID", C09, dict(self=PROG, rows=PIP, cols=OPT_PIP), result=PIP)
def onegrid(self, rows, cols):
    return grid(rows, cols, lambda r, c: mkscalar(1))


@contract(XS + "ZEROGRID", C09, dict(self=PROG, rows=PIP, cols=OPT_PIP), result=PIP)
def zerogrid(self, rows, cols):
    return grid(rows, cols, lambda r, c: mkscalar(0))


@contract(XS + "COORDINATEGRID", C09, dict(self=PROG, rows=PIP, cols=OPT_PIP), result=PIP)
def coordinategrid(self, rows, cols):
    return grid(rows, cols, lambda r, c: mklist([mkscalar(r), mkscalar(c)]))


@contract(XS + "FLATTEN", C09, dict(self=PROG, iterable=PIP), result=PIP, may_diverge=True)
def flatten(self, iterable):
    if not listlike(iterable):
        return iterable
    out = []
    for x in iterable:
        if listlike(x):
            for y in x:
                out.append(y)
        else:
            out.append(x)
    return mklist(out)


@contract(XS + "WEAVE", C09, dict(self=PROG, iterable1=PIP, iterable2=PIP), result=PIP,
          requires=lambda self, iterable1, iterable2: bounded(iterable1) and bounded(iterable2))
def weave(self, iterable1, iterable2):
    a = rawscalar("") if iterable1 is P.nil else iterable1
    b = rawscalar("") if iterable2 is P.nil else iterable2
    if not (isinstance(a, P.PipIterable) and isinstance(b, P.PipIterable)):
        return P.nil
    xs, ys = elements(a), elements(b)
    out = []
    for i in range(max(len(xs), len(ys))):
        if i < len(xs):
            out.append(xs[i])
        if i < len(ys):
            out.append(ys[i])
    if isinstance(a, P.Scalar) and isinstance(b, P.Scalar):
        return mkscalar(self.JOIN(out))
    return mklist(out)


@contract(XS + "RANGE", ["C01"], AB, result=PIP)
def range_(self, lhs, rhs):
    if isinstance(lhs, (P.Scalar, P.Nil)) and isinstance(rhs, (P.Scalar, P.Nil)):
        return mkrange(bound(lhs), bound(rhs))
    if isinstance(lhs, P.Pattern) and isinstance(rhs, P.Pattern):
        return lhs.wrap().alternate(rhs.wrap())
    return P.nil


def bound(v):
    return int(v) if isinstance(v, P.Scalar) else None


@contract(XS + "RANGETO", ["C01"], dict(self=PROG, rhs=PIP), result=PIP)
def rangeto(self, rhs):
    if isinstance(rhs, (P.Scalar, P.Nil)):
        return mkrange(None, bound(rhs))
    if isinstance(rhs, P.Pattern):
        return P.Pattern(rhs, 8)
    return P.nil


@contract(XS + "INCLRANGE", ["C01"], AB, result=PIP)
def inclrange(self, lhs, rhs):
    if isinstance(lhs, (P.Scalar, P.Nil)) and isinstance(rhs, (P.Scalar, P.Nil)):
        return mkrange(bound(lhs), int(rhs) + 1 if isinstance(rhs, P.Scalar) else None)
    return P.nil


@contract(XS + "INCLRANGETO", ["C01"], dict(self=PROG, rhs=PIP), result=PIP)
def inclrangeto(self, rhs):
    if isinstance(rhs, (P.Scalar, P.Nil)):
        return mkrange(1, int(rhs) + 1 if isinstance(rhs, P.Scalar) else None)
    return P.nil
