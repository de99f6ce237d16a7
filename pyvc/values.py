"""Run-time values of the symbolic interpreter."""
import z3
from . import logic as L


class Unsupported(Exception):
    """The construct is outside what the verifier can reason about."""


class Diverges(Exception):
    """Execution never leaves a loop on this path."""


class Infeasible(Exception):
    """The current path is contradictory: prune it."""


class Sym:
    """A symbolic primitive of known Python type: int, bool, str, flt."""
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return f"<{self.kind} {str(self.t)[:80]}>"


class Dyn:
    """A (frozen) value of possibly unknown type: a Val term."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<dyn {str(self.t)[:80]}>"


class Obj:
    """A heap object with identity, instance of a real Python class."""
    __slots__ = ("cls", "fields", "frozen", "boxed", "serial")

    def __init__(self, cls, fields=None, serial=0):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.frozen = False
        self.boxed = None
        self.serial = serial

    def __repr__(self):
        return f"<obj {self.cls.__name__} {self.fields}>"


class PList:
    """A Python list (or deque): concrete spine `items`, or symbolic `seq`."""
    __slots__ = ("items", "seq", "frozen", "serial", "cls")

    def __init__(self, items=None, seq=None, frozen=False, serial=0, cls=list):
        self.items, self.seq, self.frozen, self.serial = items, seq, frozen, serial
        self.cls = cls

    def __repr__(self):
        return f"<plist {self.items if self.seq is None else str(self.seq)[:80]}>"


class PTuple:
    """A symbolic tuple (unknown length)."""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class PDict:
    """A dict with concrete keys (host-hashable), mutable."""
    __slots__ = ("d", "frozen", "serial", "symkey")

    def __init__(self, d=None, serial=0):
        self.d = d if d is not None else {}
        self.frozen = False
        self.serial = serial


class PSet:
    """A set of values given by a sequence of its members (any order)."""
    __slots__ = ("items", "seq")

    def __init__(self, items=None, seq=None):
        self.items, self.seq = items, seq


class RangeV:
    """A Python range object."""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


class GenObj:
    """A generator / iterator: a finite (n) or infinite (n None) sequence of
    elements elem(k); `items` when the spine is concrete."""
    __slots__ = ("n", "elem", "items", "pytype", "seq", "pos", "serial")

    def __init__(self, n=None, elem=None, items=None, pytype="generator", seq=None):
        self.n, self.elem, self.items, self.pytype, self.seq = n, elem, items, pytype, seq
        self.pos = 0
        self.serial = 0


class Closure:
    """A function given by AST + defining environment."""
    __slots__ = ("node", "frame", "glob", "name", "defaults", "kwdefaults", "cls")

    def __init__(self, node, frame, glob, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.cls = cls


class BoundMethod:
    __slots__ = ("self_", "func", "name")

    def __init__(self, self_, func, name):
        self.self_, self.func, self.name = self_, func, name


class TypeOf:
    """type(dyn) for a value whose class is not yet known."""
    __slots__ = ("dyn",)

    def __init__(self, dyn):
        self.dyn = dyn


class ExcObj:
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class SuperV:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class MatchV:
    """Result of regex matching (a successful match)."""
    __slots__ = ("key", "subject", "start", "end")

    def __init__(self, key, subject, start, end):
        self.key, self.subject, self.start, self.end = key, subject, start, end


class RegexV:
    """A compiled regular expression with symbolic source."""
    __slots__ = ("src", "flags", "kind")

    def __init__(self, src, flags, kind="plain"):
        self.src, self.flags, self.kind = src, flags, kind
