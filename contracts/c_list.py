"""C02: Scalars and Lists are indexed cyclically."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C02 = ["C02"]


@contract("ptypes.List.__len__", C02, dict(self=LIST), result=INT)
def list_len(self):
    return len(items(self))


@contract("ptypes.List.__iter__", C02, dict(self=LIST))
def list_iter(self):
    return iter(items(self))


@contract("ptypes.List.__init__", C02, dict(self=FreshSelf("List"), value=DYN("list", "range", "none")), may_diverge=True)
def list_init(self, value):
    if value is None:
        self._value = []
    elif isinstance(value, P.Range):
        self._value = [x for x in value]
    else:
        self._value = [x for x in items(value)]


@contract("ptypes.List.copy", C02, dict(self=LIST), result=LIST)
def list_copy(self):
    return mklist(items(self))


def not_a_slice(self, index):
    return not isinstance(index, slice)


def cyc(xs, i, j, n):
    """xs[i], xs[i+1], ..., xs[j-1] with indices taken modulo n."""
    return [xs[(i + q) % n] for q in range(max(0, j - i))]


@contract("ptypes.List.__getitem__", C02, dict(self=LIST, index=DYN("scalar", "int", "list", "range", "slice")),
          result=PIP, raises=(IndexError, TypeError), raises_if=not_a_slice)
def list_getitem(self, index):
    if isinstance(index, P.List):
        return mklist([self[i] for i in items(index)])
    xs = items(self)
    n = len(xs)
    if isinstance(index, (P.Scalar, int)):
        i = int(index)
        if n == 0:
            raise IndexError
        return xs[i % n]
    if isinstance(index, P.Range):
        start, stop = index._lower, index._upper
    else:
        start, stop = index.start, index.stop
    if n == 0:
        return self
    i = start if start is not None else 0
    j = stop if stop is not None else n
    if i < 0:
        i = i + n
    if j < 0:
        j = j + n
    return mklist(cyc(xs, i, j, n))


@contract("ptypes.Scalar.__len__", C02, dict(self=SCALAR), result=INT)
def scalar_len(self):
    return len(text(self))


@contract("ptypes.Scalar.__iter__", C02, dict(self=SCALAR))
def scalar_iter(self):
    return iter([rawscalar(ch) for ch in text(self)])


@contract("ptypes.Scalar.__getitem__", C02, dict(self=SCALAR, index=DYN("scalar", "int", "list", "range", "slice")),
          result=PIP, raises=(IndexError, TypeError), raises_if=not_a_slice)
def scalar_getitem(self, index):
    if isinstance(index, P.List):
        return mklist([self[i] for i in items(index)])
    s = text(self)
    n = len(s)
    if isinstance(index, (P.Scalar, int)):
        i = int(index)
        if n == 0:
            raise IndexError
        return rawscalar(s[i % n])
    if isinstance(index, P.Range):
        start, stop = index._lower, index._upper
    else:
        start, stop = index.start, index.stop
    if n == 0:
        return self
    i = start if start is not None else 0
    j = stop if stop is not None else n
    if i < 0:
        i = i + n
    if j < 0:
        j = j + n
    return such(lambda r: isinstance(r, P.Scalar) and len(text(r)) == max(0, j - i)
                and all(text(r)[q] == s[(i + q) % n] for q in range(max(0, j - i))))
