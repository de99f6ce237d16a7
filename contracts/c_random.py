"""C22: random choices.  The library's random numbers are arbitrary values of
the promised range; what is shown holds whichever they are."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from c_rearrange import bounded

C22 = ["C22"]
XS = "execution.ProgramState."


def between(a, b):
    """Some integer from a up to, not including, b; nil if there is none."""
    if not a < b:
        return P.nil
    return such(lambda r: isinstance(r, P.Scalar) and a <= int(r) and int(r) < b and text(r) == str(int(r)))


@contract(XS + "RANDRANGE", C22, dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def randrange(self, lhs, rhs):
    if not isinstance(lhs, (P.Scalar, P.Nil)) or not isinstance(rhs, P.Scalar):
        return P.nil
    return between(0 if lhs is P.nil else int(lhs), int(rhs))


@contract(XS + "RANDRANGETO", C22, dict(self=PROG, rhs=PIP), result=PIP)
def randrangeto(self, rhs):
    return between(0, int(rhs)) if isinstance(rhs, P.Scalar) else P.nil


@contract(XS + "RANDCHOICE", C22, dict(self=PROG, iterable=PIP), result=PIP)
def randchoice(self, iterable):
    """One of the items."""
    if not isinstance(iterable, P.PipIterable) or not bounded(iterable):
        return P.nil
    if isinstance(iterable, P.Range):
        return between(lo(iterable), hi(iterable))
    if len(iterable) == 0:
        return P.nil
    if isinstance(iterable, P.Scalar):
        s = text(iterable)
        return such(lambda r: isinstance(r, P.Scalar) and any(text(r) == s[i] for i in range(len(s))))
    xs = elements(iterable)
    return such(lambda r: any(same(r, x) for x in xs))


@contract(XS + "SHUFFLE", C22, dict(self=PROG, iterable=DYN("list", "range", "nil", "pattern", "block")), result=PIP,
          requires=lambda self, iterable: bounded(iterable))
def shuffle(self, iterable):
    """The same items, in some order."""
    if not isinstance(iterable, P.PipIterable):
        return P.nil
    xs = elements(iterable)
    return such(lambda r: isinstance(r, P.List) and len(items(r)) == len(xs) and bag(items(r)) == bag(xs))


@contract(XS + "SHUFFLE#text", C22, dict(self=PROG, iterable=SCALAR), result=PIP, bounded=True)
def shuffle_text(self, iterable):
    return such(lambda r: isinstance(r, P.Scalar) and bag(elements(r)) == bag(elements(iterable)))
