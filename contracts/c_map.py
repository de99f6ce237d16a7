"""C11: mapping and filtering apply the function to exactly the items, in order."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C11 = ["C11"]
XS = "execution.ProgramState."
CALL = ("functionCall",)
FN = dict(effects=CALL, may_diverge=True)


def is_fn(x):
    return isinstance(x, P.Block)


def is_it(x):
    return isinstance(x, (P.Scalar, P.List, P.Range))


def bounded_it(x):
    return not isinstance(x, P.Range) or x.getUpper() is not None


def swap(f, it):
    """The function may be on either side."""
    if is_fn(it) and is_it(f):
        return it, f
    return f, it


@contract(XS + "MAP", C11, dict(self=PROG, lhs=PIP, iterable=PIP), result=PIP, effects=("functionCall", "MAP"), may_diverge=True)
def map_(self, lhs, iterable):
    f, xs = swap(lhs, iterable)
    if not is_it(xs):
        return P.nil
    out = []
    if is_fn(f):
        for x in xs:
            out.append(self.functionCall(f, [x]))
    elif isinstance(f, P.List):
        for g in f:
            out.append(self.MAP(g, xs))
    else:
        for _ in xs:
            out.append(f)
    return mklist(out)


@contract(XS + "MAPCOORDS", C11, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP, **FN)
def mapcoords(self, lhs, rhs):
    if isinstance(rhs, P.Scalar):
        h = w = int(rhs)
    elif isinstance(rhs, P.List):
        if len(rhs) == 0 or not isinstance(rhs[0], P.Scalar) or not isinstance(rhs[1], P.Scalar):
            return P.nil
        h, w = int(rhs[0]), int(rhs[1])
    elif isinstance(rhs, P.Range):
        if rhs.getUpper() is not None and len(rhs) == 0:
            return P.nil
        h, w = int(rhs[0]), int(rhs[1])
    else:
        return P.nil
    rows = []
    for r in range(h):
        row = []
        for c in range(w):
            if is_fn(lhs):
                row.append(self.functionCall(lhs, [P.Scalar(r), P.Scalar(c)]))
            else:
                row.append(lhs)
        rows.append(mklist(row))
    return mklist(rows)


@contract(XS + "MAPENUMERATE", C11, dict(self=PROG, function=PIP, iterable=PIP), result=PIP,
          requires=lambda self, function, iterable: bounded_it(function) and bounded_it(iterable), **FN)
def mapenumerate(self, function, iterable):
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    out = []
    i = 0
    for x in xs:
        out.append(self.functionCall(f, [P.Scalar(i), x]))
        i += 1
    return mklist(out)


@contract(XS + "MAPMAP", C11, dict(self=PROG, lhs=PIP, iterable=PIP), result=PIP, effects=("MAP",), may_diverge=True)
def mapmap(self, lhs, iterable):
    f, xs = swap(lhs, iterable)
    if not is_it(xs):
        return P.nil
    out = []
    for x in xs:
        out.append(self.MAP(f, x))
    return mklist(out)


@contract(XS + "MAPPAIRS", C11, dict(self=PROG, function=PIP, iterable=PIP), result=PIP, **FN)
def mappairs(self, function, iterable):
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    return self.MAPZIP(f, xs, xs[1:])


@contract(XS + "MAPSUM", C11, dict(self=PROG, function=PIP, iterable=PIP), result=PIP, effects=("MAP", "evaluate"), may_diverge=True,
          raises=(TypeError,))
def mapsum(self, function, iterable):
    total = P.Scalar("0")
    for v in self.MAP(function, iterable):
        total = self.evaluate([OPS.opsByArity[2]["+"], total, v])
    return total


@contract(XS + "MAPUNPACK", C11, dict(self=PROG, function=PIP, iterable=PIP), result=PIP, **FN)
def mapunpack(self, function, iterable):
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    out = []
    for x in xs:
        out.append(self.functionCall(f, arglist(x)))
    return mklist(out)


def arglist(x):
    if isinstance(x, P.Range) and x.getUpper() is None:
        return []
    if isinstance(x, (P.Scalar, P.List, P.Range, P.Pattern)):
        return list(x)
    return []


@contract(XS + "MAPZIP", C11, dict(self=PROG, lhs=PIP, iterable1=PIP, iterable2=PIP), result=PIP, **FN)
def mapzip(self, lhs, iterable1, iterable2):
    f, xs = swap(lhs, iterable1)
    if not (is_fn(f) and is_it(xs) and is_it(iterable2)):
        return P.nil
    out = []
    for x, y in zip(xs, iterable2):
        out.append(self.functionCall(f, [x, y]))
    return mklist(out)


@contract(XS + "FILTER", C11, dict(self=PROG, function=PIP, iterable=OPT_PIP), result=PIP, **FN)
def filter_(self, function, iterable=None):
    out = []
    if iterable is None:
        if not is_it(function):
            return P.nil
        for x in function:
            if x:
                out.append(x)
        return mklist(out)
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    for x in xs:
        if self.functionCall(f, [x]):
            out.append(x)
    return mklist(out)


@contract(XS + "FILTERNOT", C11, dict(self=PROG, function=PIP, iterable=OPT_PIP), result=PIP, **FN)
def filternot(self, function, iterable=None):
    out = []
    if iterable is None:
        if not is_it(function):
            return P.nil
        for x in function:
            if not x:
                out.append(x)
        return mklist(out)
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    for x in xs:
        if not self.functionCall(f, [x]):
            out.append(x)
    return mklist(out)


@contract(XS + "FILTERENUMERATE", C11, dict(self=PROG, function=PIP, iterable=PIP), result=PIP, **FN)
def filterenumerate(self, function, iterable):
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    out = []
    for i, x in enumerate(xs):
        if self.functionCall(f, [P.Scalar(i), x]):
            out.append(x)
    return mklist(out)


@contract(XS + "FILTERINDEXES", C11, dict(self=PROG, function=PIP, iterable=OPT_PIP), result=PIP, **FN)
def filterindexes(self, function, iterable=None):
    out = []
    if iterable is None:
        if not is_it(function):
            return P.nil
        for i, x in enumerate(function):
            if x:
                out.append(P.Scalar(i))
        return mklist(out)
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    for i, x in enumerate(xs):
        if self.functionCall(f, [P.Scalar(i), x]):
            out.append(P.Scalar(i))
    return mklist(out)


@contract(XS + "FILTERUNPACK", C11, dict(self=PROG, function=PIP, iterable=OPT_PIP), result=PIP, **FN)
def filterunpack(self, function, iterable=None):
    out = []
    if iterable is None:
        if not is_it(function):
            return P.nil
        for x in function:
            if is_it(x) and has_first(x) and x[0]:
                out.append(x)
        return mklist(out)
    f, xs = swap(function, iterable)
    if not (is_fn(f) and is_it(xs)):
        return P.nil
    for x in xs:
        if self.functionCall(f, arglist(x) if is_it(x) else []):
            out.append(x)
    return mklist(out)


def has_first(x):
    return isinstance(x, P.Range) and x.getUpper() is None or len(x) > 0
