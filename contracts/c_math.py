"""C06: rounding, powers, roots, logarithms and trigonometry."""
import math
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *

C06 = ["C06"]
XS = "execution.ProgramState."
ONE = dict(self=PROG, rhs=PIP)
LHS = dict(self=PROG, lhs=PIP)
NUMBER = dict(self=PROG, number=PIP)
BY = dict(self=PROG, lhs=PIP, rhs=OPT_PIP)


def num(s):
    return s.toNumber()


def two(a, b):
    return isinstance(a, P.Scalar) and isinstance(b, P.Scalar)


@contract(XS + "HALVE", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def halve(self, rhs):
    """The integer at or just below the half: exact for every integer."""
    if isinstance(rhs, P.Scalar):
        return mkscalar(math.floor(num(rhs) // 2))
    return P.nil


@contract(XS + "HALVEUP", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def halveup(self, rhs):
    if isinstance(rhs, P.Scalar):
        n = num(rhs)
        if isinstance(n, int):
            return mkscalar((n + 1) // 2)
        return mkscalar(math.ceil(-(-n // 2)))
    return P.nil


@contract(XS + "INVERT", C06, ONE, result=PIP)
def invert(self, rhs):
    if isinstance(rhs, P.Scalar) and num(rhs) != 0:
        return mkscalar(1 / num(rhs))
    return P.nil


@contract(XS + "BITLENGTH", C06, LHS, result=PIP)
def bitlength(self, lhs):
    if isinstance(lhs, P.Scalar):
        return mkscalar(int(lhs).bit_length())
    return P.nil


def step(rhs):
    """The absolute size of the multiple to round to, or None if it is not a number."""
    if rhs is None:
        return 1
    if isinstance(rhs, P.Scalar):
        return abs(num(rhs))
    return None


@contract(XS + "FLOOR", C06, BY, result=PIP,
          raises=(OverflowError, ValueError,))
def floor(self, lhs, rhs):
    """The greatest multiple of rhs that is not above lhs."""
    p = step(rhs)
    if p is None or not isinstance(lhs, P.Scalar):
        return P.nil
    if p == 0:
        return lhs
    n = num(lhs)
    if isinstance(n, int) and isinstance(p, int):
        return mkscalar(n - n % p)
    if p == 1:
        return mkscalar(math.floor(n))
    return mkscalar(math.floor(n / p) * p)


@contract(XS + "CEIL", C06, BY, result=PIP,
          raises=(OverflowError, ValueError,))
def ceil(self, lhs, rhs):
    """The least multiple of rhs that is not below lhs."""
    p = step(rhs)
    if p is None or not isinstance(lhs, P.Scalar):
        return P.nil
    if p == 0:
        return lhs
    n = num(lhs)
    if isinstance(n, int) and isinstance(p, int):
        return mkscalar(n + -n % p)
    if p == 1:
        return mkscalar(math.ceil(n))
    return mkscalar(math.ceil(n / p) * p)


@contract(XS + "ROUNDZERO", C06, BY, result=PIP,
          raises=(OverflowError, ValueError,))
def roundzero(self, lhs, rhs):
    """The nearest multiple of rhs towards zero."""
    p = step(rhs)
    if p is None or not isinstance(lhs, P.Scalar):
        return P.nil
    if p == 0:
        return lhs
    n = num(lhs)
    if isinstance(n, int) and isinstance(p, int):
        return mkscalar(n - n % p if n >= 0 else n + -n % p)
    if p == 1:
        return mkscalar(math.trunc(n))
    return mkscalar(math.trunc(n / p) * p)


@contract(XS + "ROUNDNEAREST", C06, BY, result=PIP,
          raises=(OverflowError, ValueError,))
def roundnearest(self, lhs, rhs):
    """The nearest multiple of rhs, and the even one of the two nearest."""
    p = step(rhs)
    if p is None or not isinstance(lhs, P.Scalar):
        return P.nil
    if p == 0:
        return lhs
    n = num(lhs)
    if p == 1:
        if math.remainder(n, 1) > 0:
            return mkscalar(math.floor(n))
        return mkscalar(math.ceil(n))
    if isinstance(n, int) and isinstance(p, int):
        below = n - n % p
        above = below + p
        if n - below < above - n:
            return mkscalar(below)
        if n - below > above - n:
            return mkscalar(above)
        return mkscalar(below if n // p % 2 == 0 else above)
    return mkscalar(n - math.remainder(n, p))


@contract(XS + "POW", C06, BY, result=PIP,
          raises=(OverflowError,))
def pow_(self, lhs, rhs):
    """lhs (or 2) to the power: exact for integers; nil where the result
    would be infinite or complex."""
    if rhs is None:
        if not isinstance(lhs, P.Scalar):
            return P.nil
        a, b = 2, num(lhs)
    elif two(lhs, rhs):
        a, b = num(lhs), num(rhs)
    else:
        return P.nil
    if a == 0 and b < 0:
        return P.nil
    if a < 0 and int(b) != b:
        return P.nil
    return mkscalar(a ** b)


@contract(XS + "POWEROFTEN", C06, BY, result=PIP,
          raises=(OverflowError,))
def poweroften(self, lhs, rhs):
    if rhs is None:
        if not isinstance(lhs, P.Scalar):
            return P.nil
        a, b = 1, num(lhs)
    elif two(lhs, rhs):
        a, b = num(lhs), num(rhs)
    else:
        return P.nil
    return mkscalar(a * 10 ** b)


@contract(XS + "ROOT", C06, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP,
          raises=(OverflowError,))
def root(self, lhs, rhs):
    if not two(lhs, rhs):
        return P.nil
    k, n = num(lhs), num(rhs)
    if k == 0:
        return P.nil
    if n < 0 and int(1 / k) != 1 / k:
        return P.nil
    if n == 0 and 1 / k < 0:
        return P.nil
    return mkscalar(n ** (1 / k))


@contract(XS + "SQRT", C06, ONE, result=PIP,
          raises=(OverflowError, ZeroDivisionError,))
def sqrt(self, rhs):
    if isinstance(rhs, P.Scalar) and num(rhs) >= 0:
        return mkscalar(num(rhs) ** 0.5)
    return P.nil


def logarithm(function, number):
    if isinstance(number, P.Scalar) and num(number) > 0:
        return mkscalar(function(num(number)))
    return P.nil


@contract(XS + "NATURALLOG", C06, NUMBER, result=PIP,
          raises=(OverflowError, ValueError,))
def naturallog(self, number):
    return logarithm(math.log, number)


@contract(XS + "BINARYLOG", C06, NUMBER, result=PIP,
          raises=(OverflowError, ValueError,))
def binarylog(self, number):
    return logarithm(math.log2, number)


@contract(XS + "DECIMALLOG", C06, NUMBER, result=PIP,
          raises=(OverflowError, ValueError,))
def decimallog(self, number):
    return logarithm(math.log10, number)


@contract(XS + "EXPONENTIAL", C06, NUMBER, result=PIP,
          raises=(OverflowError, ValueError,))
def exponential(self, number):
    if isinstance(number, P.Scalar):
        return mkscalar(math.exp(num(number)))
    return P.nil


@contract(XS + "SINE", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def sine(self, rhs):
    return mkscalar(math.sin(num(rhs))) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "COSINE", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def cosine(self, rhs):
    return mkscalar(math.cos(num(rhs))) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "TANGENT", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def tangent(self, rhs):
    return mkscalar(math.tan(num(rhs))) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "SECANT", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError, ZeroDivisionError))
def secant(self, rhs):
    return mkscalar(1 / math.cos(num(rhs))) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "COSEC", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def cosec(self, rhs):
    if isinstance(rhs, P.Scalar) and math.sin(num(rhs)) != 0:
        return mkscalar(1 / math.sin(num(rhs)))
    return P.nil


@contract(XS + "COTAN", C06, ONE, result=PIP,
          raises=(OverflowError, ValueError,))
def cotan(self, rhs):
    if isinstance(rhs, P.Scalar) and math.tan(num(rhs)) != 0:
        return mkscalar(1 / math.tan(num(rhs)))
    return P.nil


@contract(XS + "ARCTAN", C06, BY, result=PIP,
          raises=(OverflowError, ValueError,))
def arctan(self, lhs, rhs):
    if rhs is None:
        return mkscalar(math.atan(num(lhs))) if isinstance(lhs, P.Scalar) else P.nil
    return mkscalar(math.atan2(num(lhs), num(rhs))) if two(lhs, rhs) else P.nil


@contract(XS + "DEGREES", C06, ONE, result=PIP,
          raises=(ZeroDivisionError,))
def degrees(self, rhs):
    return mkscalar(num(rhs) / math.pi * 180) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "RADIANS", C06, ONE, result=PIP)
def radians(self, rhs):
    return mkscalar(num(rhs) / 180 * math.pi) if isinstance(rhs, P.Scalar) else P.nil
