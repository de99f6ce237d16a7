"""C02/C05: the operators that take a piece of a value or name a piece of a variable."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from c_vars import VAR, INDEX

XS = "execution.ProgramState."
RHS = [["none", "scalar"], ["list"], ["range"], ["nil", "pattern", "block"]]


def listlike(v):
    return isinstance(v, (P.List, P.Range))


def count(v, default):
    return default if v is None else int(v)


def leftslice(n):
    return slice(None, n)


def rightslice(n):
    return slice(n, None)


def lastslice(n):
    return slice(0, 0) if n == 0 else slice(-n, None)


def of_value(self, op, lhs, rhs, default, cut):
    if rhs is not None and listlike(rhs):
        return mklist([op(lhs, x) for x in rhs])
    if isinstance(lhs, P.PipIterable) and (rhs is None or isinstance(rhs, P.Scalar)):
        return lhs[cut(count(rhs, default))]
    return P.nil


@contract(XS + "LEFTOF#value", ["C02"], dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP, callee=True, cases=dict(rhs=RHS), may_diverge=True)
def leftof(self, lhs, rhs):
    return of_value(self, self.LEFTOF, lhs, rhs, -1, leftslice)


@contract(XS + "RIGHTOF#value", ["C02"], dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP, callee=True, cases=dict(rhs=RHS), may_diverge=True)
def rightof(self, lhs, rhs):
    return of_value(self, self.RIGHTOF, lhs, rhs, 1, rightslice)


@contract(XS + "PREFIX#value", ["C02"], dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP, callee=True, cases=dict(rhs=RHS), may_diverge=True)
def prefix(self, lhs, rhs):
    return of_value(self, self.PREFIX, lhs, rhs, -1, leftslice)


@contract(XS + "SUFFIX#value", ["C02"], dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP, callee=True, cases=dict(rhs=RHS), may_diverge=True)
def suffix(self, lhs, rhs):
    return of_value(self, self.SUFFIX, lhs, rhs, -1, lastslice)


def of_variable(self, op, lhs, rhs, default, cut):
    """A piece of a variable is a place in it; the pieces named by several
    lengths are values."""
    if rhs is None or isinstance(rhs, P.Scalar):
        r = X.Lval(lhs.base)
        r.sliceList = list(lhs.sliceList) + [cut(count(rhs, default))]
        r.evaluated = lhs.evaluated
        return r
    if listlike(rhs):
        v = self.getRval(lhs)
        return mklist([op(v, x) for x in rhs])
    return P.nil


LV = dict(self=PROG, lhs=VAR(PyListOf(INDEX)), rhs=OPT_PIP)
EFF = dict(cases=dict(rhs=RHS), effects=("getRval",), may_diverge=True)


@contract(XS + "LEFTOF#lval", ["C05"], LV, opaque_calls=("LEFTOF",), **EFF)
def leftof_lval(self, lhs, rhs):
    return of_variable(self, self.LEFTOF, lhs, rhs, -1, leftslice)


@contract(XS + "RIGHTOF#lval", ["C05"], LV, opaque_calls=("RIGHTOF",), **EFF)
def rightof_lval(self, lhs, rhs):
    return of_variable(self, self.RIGHTOF, lhs, rhs, 1, rightslice)


@contract(XS + "PREFIX#lval", ["C05"], LV, opaque_calls=("PREFIX",), **EFF)
def prefix_lval(self, lhs, rhs):
    return of_variable(self, self.PREFIX, lhs, rhs, -1, leftslice)


@contract(XS + "SUFFIX#lval", ["C05"], LV, opaque_calls=("SUFFIX",), **EFF)
def suffix_lval(self, lhs, rhs):
    return of_variable(self, self.SUFFIX, lhs, rhs, -1, lastslice)
