"""C01: a Range is an interval of integers."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C01 = ["C01"]


@contract("ptypes.Range.__len__", C01, dict(self=RANGE), raises=(ValueError,), result=INT)
def range_len(self):
    if hi(self) is None:
        raise ValueError
    return max(0, hi(self) - lo(self))


@contract("ptypes.Range.isFinite", C01, dict(self=RANGE), result=BOOL)
def range_isFinite(self):
    return hi(self) is not None


@contract("ptypes.Range.isEmpty", C01, dict(self=RANGE), result=BOOL)
def range_isEmpty(self):
    return hi(self) is not None and hi(self) <= lo(self)


@contract("ptypes.Range.__bool__", C01, dict(self=RANGE), result=BOOL)
def range_bool(self):
    return hi(self) is None or hi(self) > lo(self)


@contract("ptypes.Range.copy", C01, dict(self=RANGE), result=RANGE)
def range_copy(self):
    return mkrange(self._lower, self._upper)


@contract("ptypes.Range.getLower", C01, dict(self=RANGE), result=OPT_INT)
def range_getLower(self):
    return self._lower


@contract("ptypes.Range.getUpper", C01, dict(self=RANGE), result=OPT_INT)
def range_getUpper(self):
    return self._upper


@contract("ptypes.Range.toSlice", C01, dict(self=RANGE))
def range_toSlice(self):
    return slice(self._lower, self._upper)


@contract("ptypes.Range.toRange", C01, dict(self=RANGE), raises=(ValueError,))
def range_toRange(self):
    if hi(self) is None:
        raise ValueError
    return range(lo(self), hi(self))


@contract("ptypes.Range.__iter__", C01, dict(self=RANGE))
def range_iter(self):
    a = lo(self)
    if hi(self) is None:
        return infinite(lambda i: mkscalar(a + i))
    return iter([mkscalar(a + i) for i in range(max(0, hi(self) - a))])


@contract("ptypes.Range.__contains__", C01, dict(self=RANGE, item=PIP), result=BOOL)
def range_contains(self, item):
    if not isinstance(item, P.Scalar):
        return False
    n = item.toNumber()
    return lo(self) <= n and (hi(self) is None or n < hi(self))


@contract("ptypes.Range.count", C01, dict(self=RANGE, number=PIP), result=INT)
def range_count(self, number):
    return 1 if number in self else 0


@contract("ptypes.Range.__init__", C01, dict(self=FreshSelf("Range"), value=DYN("scalar", "int", "nil", "none", "slice"),
                                              upperVal=DYN("scalar", "int", "nil", "none")), raises=(TypeError,))
def range_init(self, value, upperVal):
    if isinstance(value, slice):
        a, b = value.start, value.stop
    else:
        a, b = value, upperVal
    if isinstance(a, P.Scalar):
        a = int(a)
    if isinstance(b, P.Scalar):
        b = int(b)
    if a is P.nil:
        a = None
    if b is None:
        self._lower, self._upper = None, a
    elif b is P.nil:
        self._lower, self._upper = a, None
    else:
        self._lower, self._upper = a, b


def not_a_slice(self, index):
    return not isinstance(index, slice)


@contract("ptypes.Range.__getitem__", C01, dict(self=RANGE, index=DYN("scalar", "int", "list", "range", "slice")),
          result=PIP, raises=(IndexError, TypeError), raises_if=not_a_slice)
def range_getitem(self, index):
    if isinstance(index, P.List):
        return mklist([self[i] for i in items(index)])
    a = lo(self)
    if isinstance(index, (P.Scalar, int)):
        i = int(index)
        if hi(self) is None:
            if i < 0:
                return P.nil
            return mkscalar(a + i)
        n = max(0, hi(self) - a)
        if n == 0:
            raise IndexError
        return mkscalar(a + i % n)
    if isinstance(index, P.Range):
        start, stop = index._lower, index._upper
    else:
        start, stop = index.start, index.stop
    if hi(self) is None:
        if start is not None and start < 0 or stop is not None and stop < 0:
            return P.nil
        return mkrange(self._lower if start is None else a + start,
                       None if stop is None else a + stop)
    n = max(0, hi(self) - a)
    if n == 0:
        return self
    i = start if start is not None else 0
    j = stop if stop is not None else n
    if i < 0:
        i = i + n
    if j < 0:
        j = j + n
    # the elements at positions i, i+1, ..., j-1, counted cyclically
    return such(lambda r: isinstance(r, (P.Range, P.List)) and r.isFinite()
                and cyclic(elements(r), a, i, j, n))


def cyclic(es, a, i, j, n):
    return len(es) == max(0, j - i) and all(same(es[q], mkscalar(a + (i + q) % n)) for q in range(max(0, j - i)))
