"""C10: the operators that take from or add to a variable in place."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from pyvc import logic as L

C10 = ["C10"]
XS = "execution.ProgramState."
EV = dict(effects=("getRval", "assign"))
OPERAND = DYN("lval", *L.PIPTAGS)


def store(self, target, value):
    """Put the remaining value back into the variable the operand names (a
    list of variables is not one)."""
    if isinstance(target, X.Lval) and not isinstance(target.base, P.List):
        self.assign(target, value)


def stored(self, target, value):
    """... and the operand stands for the variable from then on."""
    if isinstance(target, X.Lval) and not isinstance(target.base, P.List):
        self.assign(target, value)
        return target
    return value


@contract(XS + "POP", C10, dict(self=PROG, iterable=OPERAND), **EV)
def pop(self, iterable):
    v = self.getRval(iterable)
    if isinstance(v, P.Range):
        a = lo(v)
        if hi(v) is not None and hi(v) <= a:
            return P.nil
        store(self, iterable, mkrange(a + 1, hi(v)))
        return mkscalar(a)
    if not isinstance(v, (P.List, P.Scalar)) or len(v) == 0:
        return P.nil
    if isinstance(v, P.List):
        store(self, iterable, mklist(items(v)[1:]))
        return items(v)[0]
    store(self, iterable, rawscalar(text(v)[1:]))
    return rawscalar(text(v)[0])


@contract(XS + "DEQUEUE", C10, dict(self=PROG, iterable=OPERAND), **EV)
def dequeue(self, iterable):
    v = self.getRval(iterable)
    if isinstance(v, P.Range):
        if hi(v) is None or hi(v) <= lo(v):
            return P.nil
        store(self, iterable, mkrange(v.getLower(), hi(v) - 1))
        return mkscalar(hi(v) - 1)
    if not isinstance(v, (P.List, P.Scalar)) or len(v) == 0:
        return P.nil
    if isinstance(v, P.List):
        store(self, iterable, mklist(items(v)[:-1]))
        return items(v)[-1]
    store(self, iterable, rawscalar(text(v)[:-1]))
    return rawscalar(text(v)[-1])


@contract(XS + "PICK", C10, dict(self=PROG, iterable=OPERAND, index=OPERAND), **EV)
def pick(self, iterable, index):
    index = self.getRval(index)
    if not isinstance(index, P.Scalar):
        return P.nil
    i = int(index)
    v = self.getRval(iterable)
    if isinstance(v, P.Range):
        a = lo(v)
        if hi(v) is None:
            if i != 0:
                return P.nil
            store(self, iterable, mkrange(a + 1, None))
            return mkscalar(a)
        n = hi(v) - a
        if n <= 0:
            return P.nil
        i = i % n
        if i == 0:
            store(self, iterable, mkrange(a + 1, hi(v)))
        else:
            xs = elements(v)
            store(self, iterable, mklist(xs[:i] + xs[i + 1:]))
        return mkscalar(a + i)
    if not isinstance(v, (P.List, P.Scalar)) or len(v) == 0:
        return P.nil
    if isinstance(v, P.List):
        xs = items(v)
        i = i % len(xs)
        store(self, iterable, mklist(xs[:i] + xs[i + 1:]))
        return xs[i]
    s = text(v)
    i = i % len(s)
    store(self, iterable, rawscalar(s[:i] + s[i + 1:]))
    return rawscalar(s[i])


@contract(XS + "PUSH", C10, dict(self=PROG, iterable=OPERAND, item=OPERAND), **EV)
def push(self, iterable, item):
    x = self.getRval(item)
    v = self.getRval(iterable)
    if isinstance(v, (P.List, P.Range)):
        v = self.PREPENDELEM(v, x)
    elif isinstance(v, (P.Scalar, P.Pattern)):
        v = self.CAT(P.Scalar(x), v)
    elif isinstance(v, P.Nil):
        v = mklist([x])
    return stored(self, iterable, v)


@contract(XS + "PUSHBACK", C10, dict(self=PROG, iterable=OPERAND, item=OPERAND), **EV)
def pushback(self, iterable, item):
    x = self.getRval(item)
    v = self.getRval(iterable)
    if isinstance(v, (P.List, P.Range)):
        v = self.APPENDELEM(v, x)
    elif isinstance(v, (P.Scalar, P.Pattern)):
        v = self.CAT(v, P.Scalar(x))
    elif isinstance(v, P.Nil):
        v = mklist([x])
    return stored(self, iterable, v)


@contract(XS + "SWAP", C10, dict(self=PROG, lval1=EXPR, lval2=EXPR), effects=("getRval", "assign", "evaluate"))
def swap(self, lval1, lval2):
    a = self.evaluate(lval1)
    b = self.evaluate(lval2)
    x = self.getRval(a)
    y = self.getRval(b)
    if isinstance(a, X.Lval):
        self.assign(a, y)
    if isinstance(b, X.Lval):
        self.assign(b, x)
    return a


@contract(XS + "ASSIGN", C10, dict(self=PROG, lhs=OPERAND, rhs=OPERAND), **EV)
def assign_op(self, lhs, rhs):
    if not isinstance(lhs, X.Lval):
        return rhs
    if isinstance(rhs, X.Lval):
        rhs = self.getRval(rhs)
    self.assign(lhs, rhs)
    return lhs


def step(self, rhs, sign):
    v = self.evaluate([OPS.opsByArity[2][sign], self.getRval(rhs), rawscalar("1")])
    if isinstance(rhs, X.Lval):
        self.assign(rhs, v)
        return rhs
    return v


@contract(XS + "INC", C10, dict(self=PROG, rhs=OPERAND), effects=("getRval", "assign", "evaluate"))
def inc(self, rhs):
    return step(self, rhs, "+")


@contract(XS + "DEC", C10, dict(self=PROG, rhs=OPERAND), effects=("getRval", "assign", "evaluate"))
def dec(self, rhs):
    return step(self, rhs, "-")


@contract(XS + "YANK", C10, dict(self=PROG, rhs=OPERAND), **EV)
def yank(self, rhs):
    y = X.Lval("y")
    self.assign(y, rhs)
    return y


@contract(XS + "YANKPRINT", C10, dict(self=PROG, rhs=PIP), effects=("PRINT", "assign"))
def yankprint(self, rhs):
    self.PRINT(rhs)
    y = X.Lval("y")
    self.assign(y, rhs)
    return y
