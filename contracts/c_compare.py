"""C07: the comparison operators."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C07 = ["C07"]
XS = "execution.ProgramState."
AB = dict(self=PROG, lhs=PIP, rhs=PIP)


def listlike(v):
    return isinstance(v, P.List) or isinstance(v, P.Range)


def both(v, w, *classes):
    return isinstance(v, classes) and isinstance(w, classes)


def range_gt(r, s):
    """Ranges compare by lower bound, then by upper bound (none = infinite)."""
    if lo(r) != lo(s):
        return lo(r) > lo(s)
    if hi(r) is None:
        return hi(s) is not None
    return hi(s) is not None and hi(r) > hi(s)


def longer(v, w, strict):
    """Is v longer than w (an infinite Range is longer than every List)?"""
    if isinstance(v, P.Range) and hi(v) is None:
        return True
    if isinstance(w, P.Range) and hi(w) is None:
        return False
    return len(v) > len(w) if strict else len(v) >= len(w)


def num_gt(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar):
        return mkscalar(num(lhs) > num(rhs))
    if both(lhs, rhs, P.Range):
        return mkscalar(range_gt(lhs, rhs))
    if both(lhs, rhs, P.List, P.Range):
        for x, y in zip(lhs, rhs):
            if self.NUMGREATER(x, y):
                return mkscalar(True)
            if self.NUMGREATER(y, x):
                return mkscalar(False)
        return mkscalar(longer(lhs, rhs, True))
    return mkscalar(False)


@contract(XS + "NUMGREATER", C07, AB, result=SCALAR, opaque=True)
def numgreater(self, lhs, rhs):
    return num_gt(self, lhs, rhs)


@contract(XS + "NUMLESS", C07, AB, result=SCALAR, fold=lambda self, lhs, rhs: self.NUMGREATER(rhs, lhs))
def numless(self, lhs, rhs):
    return num_gt(self, rhs, lhs)


def num_ge(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar):
        return mkscalar(num(lhs) >= num(rhs))
    if both(lhs, rhs, P.Range):
        return mkscalar(not range_gt(rhs, lhs))
    if both(lhs, rhs, P.List, P.Range):
        for x, y in zip(lhs, rhs):
            if self.NUMGREATER(x, y):
                return mkscalar(True)
            if self.NUMGREATER(y, x):
                return mkscalar(False)
        return mkscalar(longer(lhs, rhs, False))
    return mkscalar(lhs == rhs)


@contract(XS + "NUMGREATEREQ", C07, AB, result=SCALAR)
def numgreatereq(self, lhs, rhs):
    return num_ge(self, lhs, rhs)


@contract(XS + "NUMLESSEQ", C07, AB, result=SCALAR)
def numlesseq(self, lhs, rhs):
    return num_ge(self, rhs, lhs)


@contract(XS + "NUMCMP", C07, AB, result=SCALAR)
def numcmp(self, lhs, rhs):
    return mkscalar(1 if self.NUMGREATER(lhs, rhs) else -1 if self.NUMGREATER(rhs, lhs) else 0)


def finite_(v):
    return not isinstance(v, P.Range) or finite(v)


def num_eq(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar):
        return num(lhs) == num(rhs)
    if both(lhs, rhs, P.List, P.Range) and not both(lhs, rhs, P.Range):
        return (finite_(lhs) and finite_(rhs) and len(lhs) == len(rhs)
                and all(self.NUMEQUAL(x, y) for x, y in zip(lhs, rhs)))
    return lhs == rhs


@contract(XS + "NUMEQUAL", C07, AB, result=SCALAR, opaque=True)
def numequal(self, lhs, rhs):
    return mkscalar(num_eq(self, lhs, rhs))


@contract(XS + "NUMNOTEQUAL", C07, AB, result=SCALAR, fold=lambda self, lhs, rhs: mkscalar(not self.NUMEQUAL(lhs, rhs)))
def numnotequal(self, lhs, rhs):
    return mkscalar(not num_eq(self, lhs, rhs))


def str_eq(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar, P.Pattern):
        return str(lhs) == str(rhs)
    if both(lhs, rhs, P.List):
        return len(lhs) == len(rhs) and all(self.STREQUAL(x, y) for x, y in zip(lhs, rhs))
    return lhs == rhs


@contract(XS + "STREQUAL", C07, AB, result=SCALAR, opaque=True)
def strequal(self, lhs, rhs):
    return mkscalar(str_eq(self, lhs, rhs))


@contract(XS + "STRNOTEQUAL", C07, AB, result=SCALAR, fold=lambda self, lhs, rhs: mkscalar(not self.STREQUAL(lhs, rhs)))
def strnotequal(self, lhs, rhs):
    return mkscalar(not str_eq(self, lhs, rhs))


def str_gt(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar):
        return mkscalar(text(lhs) > text(rhs))
    if both(lhs, rhs, P.List):
        for x, y in zip(lhs, rhs):
            if self.STRGREATER(x, y):
                return mkscalar(True)
            if self.STRGREATER(y, x):
                return mkscalar(False)
        return mkscalar(len(lhs) > len(rhs))
    return mkscalar(False)


def str_ge(self, lhs, rhs):
    if both(lhs, rhs, P.Scalar):
        return mkscalar(not text(rhs) > text(lhs))
    if both(lhs, rhs, P.List):
        for x, y in zip(lhs, rhs):
            if self.STRGREATER(x, y):
                return mkscalar(True)
            if self.STRGREATER(y, x):
                return mkscalar(False)
        return mkscalar(len(lhs) >= len(rhs))
    return mkscalar(lhs == rhs)


@contract(XS + "STRGREATER", C07, AB, result=SCALAR, opaque=True)
def strgreater(self, lhs, rhs):
    return str_gt(self, lhs, rhs)


@contract(XS + "STRLESS", C07, AB, result=SCALAR, fold=lambda self, lhs, rhs: self.STRGREATER(rhs, lhs))
def strless(self, lhs, rhs):
    return str_gt(self, rhs, lhs)


@contract(XS + "STRGREATEREQ", C07, AB, result=SCALAR)
def strgreatereq(self, lhs, rhs):
    return str_ge(self, lhs, rhs)


@contract(XS + "STRLESSEQ", C07, AB, result=SCALAR)
def strlesseq(self, lhs, rhs):
    return str_ge(self, rhs, lhs)


def iterable(v):
    return isinstance(v, P.PipIterable)


@contract(XS + "LEN", C07, dict(self=PROG, rhs=PIP), result=PIP)
def len_(self, rhs):
    if iterable(rhs) and finite_(rhs):
        return mkscalar(len(rhs))
    return P.nil


@contract(XS + "LENEQUAL", C07, AB, result=PIP)
def lenequal(self, lhs, rhs):
    if not iterable(lhs) or not iterable(rhs):
        return P.nil
    if finite_(lhs) and finite_(rhs):
        return mkscalar(len(lhs) == len(rhs))
    return mkscalar(not finite_(lhs) and not finite_(rhs))


def len_gt(lhs, rhs):
    if not iterable(lhs) or not iterable(rhs):
        return P.nil
    if finite_(lhs) and finite_(rhs):
        return mkscalar(len(lhs) > len(rhs))
    return mkscalar(not finite_(lhs) and finite_(rhs))


@contract(XS + "LENGREATER", C07, AB, result=PIP)
def lengreater(self, lhs, rhs):
    return len_gt(lhs, rhs)


@contract(XS + "LENLESS", C07, AB, result=PIP)
def lenless(self, lhs, rhs):
    return len_gt(rhs, lhs)
