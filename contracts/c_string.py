"""C18: operators on strings."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C18 = ["C18"]
XS = "execution.ProgramState."
AB = dict(self=PROG, lhs=PIP, rhs=PIP)
ONE = dict(self=PROG, rhs=PIP)
STRIPARGS = dict(self=PROG, string=PIP, extra=OPT_PIP)


def pattern(raw, flags):
    return P.Pattern(raw, flags)


def sp(v):
    return isinstance(v, (P.Scalar, P.Pattern))


def raw(v):
    return v._raw if isinstance(v, P.Pattern) else text(v)


def flags(v):
    return v._flags if isinstance(v, P.Pattern) else 0


def listlike(v):
    return isinstance(v, (P.List, P.Range))


@contract(XS + "CAT", C18, AB, result=PIP)
def cat(self, lhs, rhs):
    if not (sp(lhs) and sp(rhs)):
        return P.nil
    if isinstance(lhs, P.Scalar) and isinstance(rhs, P.Scalar):
        return mkscalar(text(lhs) + text(rhs))
    return pattern(raw(lhs) + raw(rhs), flags(lhs) | flags(rhs))


@contract(XS + "WRAP", C18, dict(self=PROG, string=PIP, outer=PIP), result=PIP)
def wrap(self, string, outer):
    if not (sp(string) and sp(outer)):
        return P.nil
    if isinstance(string, P.Scalar) and isinstance(outer, P.Scalar):
        return mkscalar(text(outer) + text(string) + text(outer))
    return pattern(raw(outer) + raw(string) + raw(outer), flags(outer) | flags(string) | flags(outer))


@contract(XS + "STRMUL", C18, AB, result=PIP)
def strmul(self, lhs, rhs):
    if not (sp(lhs) and isinstance(rhs, P.Scalar)):
        return P.nil
    t = raw(lhs) * int(rhs)
    return mkscalar(t) if isinstance(lhs, P.Scalar) else pattern(t, 0)


@contract(XS + "UPPERCASE", C18, ONE, result=PIP)
def uppercase(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(rhs).upper())
    return rhs if isinstance(rhs, P.Range) else P.nil


@contract(XS + "LOWERCASE", C18, ONE, result=PIP)
def lowercase(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(rhs).lower())
    return rhs if isinstance(rhs, P.Range) else P.nil


@contract(XS + "SWAPCASE", C18, ONE, result=PIP)
def swapcase(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(rhs).swapcase())
    return rhs if isinstance(rhs, P.Range) else P.nil


@contract(XS + "TITLECASE", C18, ONE, result=PIP)
def titlecase(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(rhs).title())
    return rhs if isinstance(rhs, P.Range) else P.nil


@contract(XS + "INITIALCAPS", C18, ONE, result=PIP)
def initialcaps(self, rhs):
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(rhs).capitalize())
    return rhs if isinstance(rhs, P.Range) else P.nil


@contract(XS + "ASC", C18, ONE, result=PIP)
def asc(self, rhs):
    if isinstance(rhs, P.Pattern):
        return pattern(raw(rhs), rhs._flags ^ re.ASCII)
    if isinstance(rhs, P.Scalar) and len(text(rhs)) > 0:
        return mkscalar(ord(text(rhs)[0]))
    return P.nil


@contract(XS + "CHR", C18, ONE, result=PIP)
def chr_(self, rhs):
    if isinstance(rhs, P.Pattern):
        return pattern("(" + raw(rhs) + ")", rhs._flags)
    if not isinstance(rhs, P.Scalar):
        return P.nil
    n = int(rhs)
    if n < 0 or n > 0x10ffff:
        return P.nil
    return mkscalar(chr(n))


@contract(XS + "TRIM", C18, dict(self=PROG, string=PIP, extra=OPT_PIP), result=PIP, may_diverge=True)
def trim(self, string, extra):
    if isinstance(string, P.Range):
        return mklist([self.TRIM(x, extra) for x in string])
    if extra is None:
        a = b = 1
    elif isinstance(extra, P.Scalar):
        a = b = int(extra)
    elif isinstance(extra, P.Range):
        a = 0 if lo(extra) is None else lo(extra)
        b = 0 if hi(extra) is None else hi(extra)
    elif extra is P.nil:
        return string
    else:
        return P.nil
    if not isinstance(string, P.Scalar):
        return P.nil
    s = text(string)
    n = len(s)
    a = min(max(a, 0), n)
    b = max(n - max(b, 0), 0)
    return mkscalar(s[a:b] if a < b else "")


def without(rx, s):
    """s after removing matches until there are none."""
    before = s
    s = rx.sub("", before)
    while before != s:
        before = s
        s = rx.sub("", before)
    return s


@contract(XS + "LSTRIP", C18, STRIPARGS, result=PIP, raises=(re.error,), may_diverge=True)
def lstrip(self, string, extra):
    if extra is P.nil:
        return string
    if extra is not None and not isinstance(extra, (P.PipIterable, P.Pattern)):
        return P.nil
    if listlike(string):
        return mklist([self.LSTRIP(x, extra) for x in string])
    if not isinstance(string, P.Scalar):
        return P.nil
    if extra is None:
        return mkscalar(text(string).lstrip())
    if isinstance(extra, P.Scalar):
        return mkscalar(text(string).lstrip(text(extra)))
    if isinstance(extra, P.Pattern):
        if raw(extra) == "":
            return string
        s = text(string)
        s = without(re.compile("^(?:" + raw(extra) + ")"), s)
        return mkscalar(s)
    for e in extra:
        string = self.LSTRIP(string, e)
    return string


@contract(XS + "RSTRIP", C18, STRIPARGS, result=PIP, raises=(re.error,), may_diverge=True)
def rstrip(self, string, extra):
    if extra is P.nil:
        return string
    if extra is not None and not isinstance(extra, (P.PipIterable, P.Pattern)):
        return P.nil
    if listlike(string):
        return mklist([self.RSTRIP(x, extra) for x in string])
    if not isinstance(string, P.Scalar):
        return P.nil
    if extra is None:
        return mkscalar(text(string).rstrip())
    if isinstance(extra, P.Scalar):
        return mkscalar(text(string).rstrip(text(extra)))
    if isinstance(extra, P.Pattern):
        if raw(extra) == "":
            return string
        s = text(string)
        s = without(re.compile("(?:" + raw(extra) + ")$"), s)
        return mkscalar(s)
    for e in extra:
        string = self.RSTRIP(string, e)
    return string


@contract(XS + "STRIP", C18, STRIPARGS, result=PIP, raises=(re.error,), may_diverge=True)
def strip(self, string, extra):
    if extra is P.nil:
        return string
    if extra is not None and not isinstance(extra, (P.PipIterable, P.Pattern)):
        return P.nil
    if listlike(string):
        return mklist([self.STRIP(x, extra) for x in string])
    if not isinstance(string, P.Scalar):
        return P.nil
    if extra is None:
        return mkscalar(text(string).strip())
    if isinstance(extra, P.Scalar):
        return mkscalar(text(string).strip(text(extra)))
    if isinstance(extra, P.Pattern):
        if raw(extra) == "":
            return string
        s = text(string)
        s = without(re.compile("^(?:" + raw(extra) + ")"), s)
        s = without(re.compile("(?:" + raw(extra) + ")$"), s)
        return mkscalar(s)
    for e in extra:
        string = self.STRIP(string, e)
    return string


@contract(XS + "JOIN", C18, dict(self=PROG, iterable=PIP, sep=OPT_PIP), result=PIP, may_diverge=True)
def join(self, iterable, sep):
    if listlike(sep):
        return mklist([self.JOIN(iterable, x) for x in sep])
    if sep is not None and not sp(sep) or not isinstance(iterable, P.PipIterable):
        return P.nil
    result = None
    for x in iterable:
        if listlike(x):
            x = self.JOIN(x, sep)
        if result is None:
            result = x
        else:
            if sep is not None:
                result = self.CAT(result, sep)
            result = self.CAT(result, x)
    return mkscalar("") if result is None else result


@contract(XS + "JOINWRAP", C18, dict(self=PROG, iterable=PIP, sep=PIP), result=PIP, may_diverge=True,
          opaque_calls=("CAT", "JOIN"))
def joinwrap(self, iterable, sep):
    if listlike(sep):
        return mklist([self.JOINWRAP(iterable, x) for x in sep])
    if not sp(sep) or not isinstance(iterable, P.PipIterable):
        return P.nil
    result = sep
    for x in iterable:
        result = self.CAT(self.CAT(result, self.JOIN(x, sep) if listlike(x) else x), sep)
    return result


@contract(XS + "DELETECHARS", C18, dict(self=PROG, string=PIP, chars=PIP), result=PIP, bounded=True)
def deletechars(self, string, chars):
    if not (isinstance(string, P.Scalar) and isinstance(chars, P.Scalar)):
        return string
    return mkscalar("".join([c for c in text(string) if c not in text(chars)]))


def code_of(x):
    """The character code an item of a transliteration stands for."""
    if isinstance(x, str):
        return ord(x)
    return None if x is P.nil else x.toNumber()


@contract(XS + "TRANSLITERATE", C18, dict(self=PROG, lhs=PIP, old=PIP, new=PIP), result=PIP, bounded=True, may_diverge=True,
          requires=lambda self, lhs, old, new: codes_ok(old) and codes_ok(new))
def transliterate(self, lhs, old, new):
    if listlike(lhs):
        return mklist([self.TRANSLITERATE(x, old, new) for x in lhs])
    if not (isinstance(lhs, P.Scalar) and isinstance(old, P.PipIterable) and isinstance(new, P.PipIterable)):
        return P.nil
    if isinstance(old, P.Range) and isinstance(new, P.Range) and hi(old) is None and hi(new) is None:
        return P.nil
    old = text(old) if isinstance(old, P.Scalar) else old
    new = text(new) if isinstance(new, P.Scalar) else new
    table = {}
    for x, y in zip(old, new):
        if isinstance(x, (str, P.Scalar)) and (isinstance(y, (str, P.Scalar)) or y is P.nil):
            table[code_of(x)] = code_of(y)
    out = ""
    for c in text(lhs):
        if ord(c) not in table:
            out += c
        elif table[ord(c)] is not None:
            out += chr(table[ord(c)])
    return mkscalar(out)


def codes_ok(v):
    """Character codes are whole numbers in the Unicode range."""
    if isinstance(v, P.Range):
        return (lo(v) is None or lo(v) >= 0) and hi(v) is not None and hi(v) < 1000
    if isinstance(v, P.List):
        return all(not isinstance(x, P.Scalar) or isinstance(x.toNumber(), int) and 0 <= x.toNumber() < 1000 for x in items(v))
    return True
