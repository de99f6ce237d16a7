"""C09: cutting values into parts and joining them."""
import itertools
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from c_rearrange import bounded, elements, listlike, bounded_items

C09 = ["C09"]
KINDS = [["scalar"], ["list"], ["range"], ["nil", "pattern", "block"]]
XS = "execution.ProgramState."


def part(v, i, j):
    """Items i up to j of an iterable, as a value of the same kind."""
    return v[slice(i, j)]


def parts(v, cuts):
    return mklist([part(v, i, j) for i, j in cuts])


@contract(XS + "GROUP", C09, dict(self=PROG, iterable=PIP, rhs=OPT_PIP), result=PIP, opaque_calls=["GROUP", "__getitem__"],
          cases=dict(iterable=KINDS, rhs=[["none"], ["scalar"], ["list"], ["range"], ["nil", "pattern", "block"]]),
          requires=lambda self, iterable, rhs: bounded(iterable), may_diverge=True)
def group(self, iterable, rhs):
    if isinstance(rhs, (P.List, P.Range)):
        return mklist([self.GROUP(iterable, r) for r in rhs])
    if not isinstance(iterable, P.PipIterable) or not (rhs is None or isinstance(rhs, P.Scalar)):
        return P.nil
    size = 2 if rhs is None else rhs.toNumber()
    if not isinstance(size, int):
        undefined()         # sizes with a fraction: nothing is promised
    n = len(iterable)
    # as many parts as needed: n / |size|, rounded up
    if size > 0:
        return mklist([part(iterable, i * size, min(i * size + size, n)) for i in range((n + size - 1) // size)])
    if size < 0:
        return mklist([part(iterable, max(n + i * size + size, 0), n + i * size) for i in range((size + 1 - n) // size)])
    return P.nil


@contract(XS + "SPLITAT", C09, dict(self=PROG, iterable=PIP, indices=PIP), result=PIP, opaque_calls=["__getitem__"],
          cases=dict(iterable=KINDS, indices=[["scalar"], ["list"], ["range"], ["nil", "pattern", "block"]]),
          requires=lambda self, iterable, indices: bounded(iterable) and bounded(indices))
def splitat(self, iterable, indices):
    if isinstance(indices, P.List) and not all(isinstance(x, P.Scalar) for x in items(indices)):
        return P.nil
    if not isinstance(iterable, P.PipIterable) or not isinstance(indices, P.PipIterable):
        return P.nil
    places = [int(indices)] if isinstance(indices, P.Scalar) else [int(x) for x in elements(indices)]
    n = len(iterable)
    out = []
    start = 0
    for i in range(n):
        if i in places or i - n in places:
            out.append(part(iterable, start, i))
            start = i
    out.append(iterable[slice(start, None)])
    return mklist(out)


@contract(XS + "ZIPJOIN", C09, dict(self=PROG, line1=PIP, line2=OPT_PIP), result=PIP, opaque_calls=["JOIN"], may_diverge=True)
def zipjoin(self, line1, line2):
    """Items at the same position of several lines, joined; a line that is
    too short goes on with spaces."""
    if line2 is None and not isinstance(line1, P.PipIterable):
        return P.nil
    many = line2 is None and isinstance(line1, P.Scalar)
    if many:
        lines = text(line1).split("\n")
    elif line2 is None:
        lines = line1
    else:
        lines = [line1, line2]
    lines = [x if isinstance(x, P.PipIterable) else P.Scalar(x) for x in lines]
    joined = [self.JOIN(t) for t in itertools.zip_longest(*lines, fillvalue=rawscalar(" "))]
    return self.JOIN(joined, rawscalar("\n")) if many else mklist(joined)


@contract(XS + "REPLACEAT", C09, dict(self=PROG, lhs=PIP, index=PIP, new=PIP), result=PIP, opaque_calls=["REPLACEAT"],
          cases=dict(lhs=KINDS, index=KINDS))
def replaceat(self, lhs, index, new):
    """A copy with the items at the index (a position, a slice or a list of
    those) replaced."""
    if index is P.nil:
        return lhs
    if not isinstance(lhs, P.PipIterable) or not isinstance(index, P.PipIterable):
        return P.nil
    if isinstance(lhs, P.Range):
        if not finite(lhs):
            return P.nil
        result = mklist(elements(lhs))
    else:
        result = lhs.copy()
    if isinstance(index, P.List):
        k = 0
        for i in index:
            if not isinstance(new, P.List):
                result = self.REPLACEAT(result, i, new)
            elif len(new) > 0:
                result = self.REPLACEAT(result, i, new[k % len(new)])
            k = k + 1
        return result
    place = int(index) if isinstance(index, P.Scalar) else slice(index._lower, index._upper)
    try:
        result[place] = new
    except (IndexError, TypeError, ZeroDivisionError):
        pass
    return result


@contract(XS + "UNWEAVE", C09, dict(self=PROG, iterable=PIP, strands=OPT_PIP), result=PIP, bounded=True,
          requires=lambda self, iterable, strands: strands is None or not isinstance(strands, P.Scalar) or int(strands) < 1000)
def unweave(self, iterable, strands):
    """Every k-th item, starting with each of the first k."""
    if not isinstance(iterable, P.PipIterable) or not bounded(iterable) or not isinstance(strands, P.Scalar):
        return P.nil
    k = int(strands)
    if k < 1:
        return P.nil
    if isinstance(iterable, P.Scalar):
        return mklist([rawscalar(text(iterable)[j::k]) for j in range(k)])
    xs = elements(iterable)
    return mklist([mklist(xs[j::k]) for j in range(k)])


@contract(XS + "CHOP", C09, dict(self=PROG, iterable=PIP, rhs=OPT_PIP), result=PIP, bounded=True,
          requires=lambda self, iterable, rhs: bounded(iterable) and (not isinstance(rhs, P.Range) or finite(rhs))
          and (not isinstance(rhs, P.Scalar) or abs(int(rhs)) < 1000))
def chop(self, iterable, rhs):
    """As many parts as asked for, as equal as possible: part i goes from
    i/count of the length to (i+1)/count of it, rounded down."""
    if isinstance(rhs, (P.List, P.Range)):
        return mklist([self.CHOP(iterable, r) for r in rhs])
    if not isinstance(iterable, P.PipIterable) or not (rhs is None or isinstance(rhs, P.Scalar)):
        return P.nil
    count = 2 if rhs is None else rhs.toNumber()
    if not isinstance(count, int):
        undefined()
    n = len(iterable)
    if count > 0:
        return mklist([part(iterable, i * n // count, (i + 1) * n // count) for i in range(count if n > 0 else 0)])
    if count < 0:
        # counted from the right
        c = -count
        return mklist([part(iterable, n - (i + 1) * n // c, n - i * n // c)
                       for i in range(c if n > 0 else 0)])
    return P.nil


@contract(XS + "REMOVE#list", C09, dict(self=PROG, lhs=DYN("list", "range", "pattern", "block"), rhs=PIP), result=PIP, bounded=True,
          requires=lambda self, lhs, rhs: bounded(lhs))
def remove_items(self, lhs, rhs):
    """The items that are not equal to the given one."""
    if not isinstance(lhs, P.PipIterable):
        return P.nil
    return mklist([x for x in elements(lhs) if not x == rhs])
