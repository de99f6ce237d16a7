"""C06: arithmetic operators."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
import math

C06 = ["C06"]
XS = "execution.ProgramState."


def two(v, w):
    return isinstance(v, P.Scalar) and isinstance(w, P.Scalar)


def shifted(r, k):
    """The Range r moved by k places."""
    return mkrange(lo(r) + k, hi(r) + k if hi(r) is not None else None)


@contract(XS + "SUB", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP, unroll=True,
          requires=lambda self, lhs, rhs: not isinstance(lhs, P.Scalar) or not isinstance(rhs, P.Range) or finite(rhs))
def sub(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(num(lhs) - num(rhs))
    if isinstance(lhs, P.Range) and isinstance(rhs, P.Scalar):
        return shifted(lhs, -int(rhs))
    if isinstance(lhs, P.Scalar) and isinstance(rhs, P.Range):
        return mklist([mkscalar(num(lhs) - k) for k in range(lo(rhs), hi(rhs))])
    return P.nil


def shiftable(v, w):
    return not (isinstance(v, P.Scalar) and isinstance(w, P.Range)) or finite(w) or num(v) == int(v)


@contract(XS + "ADD", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP, unroll=True,
          requires=lambda self, lhs, rhs: shiftable(lhs, rhs) and shiftable(rhs, lhs))
def add(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(num(lhs) + num(rhs))
    if isinstance(lhs, P.Range) and isinstance(rhs, P.Scalar):
        lhs, rhs = rhs, lhs
    if isinstance(lhs, P.Scalar) and isinstance(rhs, P.Range):
        if num(lhs) == int(lhs):
            return shifted(rhs, int(lhs))
        return mklist([mkscalar(num(lhs) + k) for k in range(lo(rhs), hi(rhs))])
    if isinstance(lhs, P.Pattern) and isinstance(rhs, P.Pattern):
        return lhs.wrap().concat(rhs.wrap())
    return P.nil


@contract(XS + "MUL", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def mul(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(num(lhs) * num(rhs))
    if isinstance(lhs, P.Pattern) and isinstance(rhs, P.Scalar):
        return lhs.wrap().repeat(int(rhs))
    if isinstance(rhs, P.Pattern) and isinstance(lhs, P.Scalar):
        return rhs.wrap().repeat(int(lhs))
    return P.nil


@contract(XS + "DIV", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def div(self, lhs, rhs):
    if two(lhs, rhs) and num(rhs) != 0:
        return mkscalar(num(lhs) / num(rhs))
    return P.nil


@contract(XS + "INTDIV", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def intdiv(self, lhs, rhs):
    if two(lhs, rhs) and num(rhs) != 0:
        return mkscalar(num(lhs) // num(rhs))
    return P.nil


@contract(XS + "MOD", C06, dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP)
def mod(self, lhs, rhs):
    if rhs is None:
        if isinstance(lhs, P.Scalar):
            return mkscalar(num(lhs) % 2)
        return P.nil
    if two(lhs, rhs) and num(rhs) != 0:
        return mkscalar(num(lhs) % num(rhs))
    return P.nil


@contract(XS + "NEG", C06, dict(self=PROG, rhs=PIP), result=PIP)
def neg(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(-num(rhs))
    if isinstance(rhs, P.Pattern):
        return P.Pattern(rhs, 2)
    return P.nil


@contract(XS + "POS", C06, dict(self=PROG, rhs=PIP), result=PIP)
def pos(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(num(rhs))
    if isinstance(rhs, P.Range):
        return rhs
    if isinstance(rhs, P.Pattern):
        return rhs.wrap().plus()
    return P.nil


@contract(XS + "ABS", C06, dict(self=PROG, rhs=PIP), result=PIP)
def abs_(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(abs(num(rhs)))
    return P.nil


@contract(XS + "ABSOLUTEDIFF", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def absdiff(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(abs(num(lhs) - num(rhs)))
    return P.nil


@contract(XS + "SIGN", C06, dict(self=PROG, rhs=PIP), result=PIP)
def sign(self, rhs):
    if isinstance(rhs, P.Scalar):
        n = num(rhs)
        return mkscalar(1 if n > 0 else -1 if n < 0 else 0)
    return P.nil


@contract(XS + "SQUARE", C06, dict(self=PROG, rhs=PIP), result=PIP)
def square(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(num(rhs) * num(rhs))
    return P.nil


@contract(XS + "DOUBLE", C06, dict(self=PROG, rhs=PIP), result=PIP)
def double(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(num(rhs) * 2)
    return P.nil


@contract(XS + "BITWISEAND", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def bitand(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(int(lhs) & int(rhs))
    return P.nil


@contract(XS + "BITWISEOR", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def bitor(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(int(lhs) | int(rhs))
    return P.nil


@contract(XS + "BITWISEXOR", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def bitxor(self, lhs, rhs):
    if two(lhs, rhs):
        return mkscalar(int(lhs) ^ int(rhs))
    return P.nil


@contract(XS + "BITWISENOT", C06, dict(self=PROG, rhs=PIP), result=PIP)
def bitnot(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(-1 - int(rhs))
    return P.nil
