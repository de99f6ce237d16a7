"""C08: conversion between numbers and their digits in a base."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *

C08 = ["C08"]
XS = "execution.ProgramState."
NUMBER = dict(self=PROG, number=PIP, base=OPT_PIP)
DIGITS = dict(self=PROG, digits=PIP, base=OPT_PIP)
ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def base_of(base):
    """The base as a number; None if it is not one."""
    if base is None:
        return 2
    if isinstance(base, P.Scalar):
        return int(base)
    return None


@contract(XS + "TOBASE", C08, NUMBER, result=PIP)
def tobase(self, number, base):
    b = base_of(base)
    if b is None or b < 2 or b > 36 or not isinstance(number, P.Scalar):
        return P.nil
    n = int(number)
    if n == 0:
        return mkscalar("0")
    rest = -n if n < 0 else n
    digits = ""
    while rest > 0:
        digits = ALPHABET[rest % b] + digits
        rest = rest // b
    return mkscalar("-" + digits if n < 0 else digits)


@contract(XS + "TODIGITS", C08, NUMBER, result=PIP, may_diverge=True)
def todigits(self, number, base):
    if isinstance(number, P.List) or isinstance(number, P.Range):
        return mklist([self.TODIGITS(x, base) for x in number])
    b = base_of(base)
    if b is None or b < 2 or not isinstance(number, P.Scalar):
        return P.nil
    n = int(number)
    rest = -n if n < 0 else n
    digits = []
    while rest > 0:
        digits = [mkscalar(-(rest % b) if n < 0 else rest % b)] + digits
        rest = rest // b
    return mklist(digits)


@contract(XS + "FROMBASE", C08, NUMBER, result=PIP)
def frombase(self, number, base):
    b = base_of(base)
    if b is None or b < 2 or b > 36 or not isinstance(number, P.Scalar):
        return P.nil
    if text(number) == "":
        return mkscalar(0)
    try:
        return mkscalar(int(text(number).replace("_", " "), b))
    except ValueError:
        return P.nil


@contract(XS + "FROMDIGITS", C08, DIGITS, result=PIP,
          raises=(OverflowError, ValueError, ZeroDivisionError))
def fromdigits(self, digits, base):
    """The sum of each digit times its power of the base; nil if a digit is not a number."""
    if base is None:
        b = 2
    elif isinstance(base, P.Scalar):
        b = base.toNumber()
    else:
        return P.nil
    if not isinstance(digits, P.PipIterable):
        return P.nil
    total = 0
    place = 0
    for d in reversed(digits):
        if not isinstance(d, P.Scalar):
            return P.nil
        total = total + d.toNumber() * b ** place
        place = place + 1
    return mkscalar(total)


def conversions(rng, n):
    """Every base with the numbers around its powers, and random ones."""
    me = PROG.rand(rng)
    for b in [None] + list(range(2, 37)):
        base = None if b is None else P.Scalar(b)
        for k in [0, 1, -1] + [b2 ** e + d for b2 in [b or 2] for e in (1, 2, 5, 40) for d in (-1, 0, 1)]:
            yield me, P.Scalar(k), base
            yield me, P.Scalar(-k), base
    for _ in range(n):
        yield me, P.Scalar(rng.randrange(-10 ** rng.randrange(1, 60), 10 ** 9)), P.Scalar(rng.randrange(2, 37))


@contract(XS + "TOBASE#back", C08, NUMBER, bounded=True, native_args=conversions)
def tobase_back(self, number, base):
    """Reading the digits back in the same base gives the integer."""
    return such(lambda r: self.FROMBASE(r, base) == mkscalar(int(number)))


@contract(XS + "TODIGITS#back", C08, NUMBER, bounded=True, native_args=conversions)
def todigits_back(self, number, base):
    return such(lambda r: self.FROMDIGITS(r, base) == mkscalar(int(number)) and
                all(abs(int(d)) < (2 if base is None else int(base)) for d in r))
