"""C03: copying, equality and hashing of values."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C03 = ["C03"]


@contract("ptypes.Scalar.copy", C03, dict(self=SCALAR), result=SCALAR, fresh=True)
def scalar_copy(self):
    return rawscalar(text(self))


@contract("ptypes.Pattern.copy", C03, dict(self=PATTERN), result=PATTERN)
def pattern_copy(self):
    return mkpattern(self._raw, self._flags)


@contract("ptypes.Block.copy", C03, dict(self=BLOCK), result=BLOCK)
def block_copy(self):
    return mkblock(self._statements, self._returnExpr)


@contract("ptypes.Nil.copy", C03, dict(self=NIL), result=NIL)
def nil_copy(self):
    return P.nil


@contract("ptypes.Scalar.__eq__", C03, dict(self=SCALAR, rhs=PIP), result=BOOL)
def scalar_eq(self, rhs):
    return isinstance(rhs, P.Scalar) and text(self) == text(rhs)


@contract("ptypes.Pattern.__eq__", C03, dict(self=PATTERN, rhs=PIP), result=BOOL)
def pattern_eq(self, rhs):
    return isinstance(rhs, P.Pattern) and self._raw == rhs._raw and self._flags == rhs._flags


@contract("ptypes.Range.__eq__", C03, dict(self=RANGE, rhs=PIP), result=BOOL)
def range_eq(self, rhs):
    return isinstance(rhs, P.Range) and self._lower == rhs._lower and self._upper == rhs._upper


@contract("ptypes.List.__eq__", C03, dict(self=LIST, rhs=PIP), result=BOOL)
def list_eq(self, rhs):
    return (isinstance(rhs, P.List) and len(items(self)) == len(items(rhs))
            and all(items(self)[i] == items(rhs)[i] for i in range(len(items(self)))))


@contract("ptypes.Nil.__eq__", C03, dict(self=NIL, rhs=PIP), result=BOOL)
def nil_eq(self, rhs):
    return isinstance(rhs, P.Nil)


@contract("ptypes.Block.__eq__", C03, dict(self=BLOCK, rhs=PIP), result=BOOL)
def block_eq(self, rhs):
    return isinstance(rhs, P.Block) and self._statements == rhs._statements and self._returnExpr == rhs._returnExpr


@contract("ptypes.PipType.__hash__", C03, dict(self=PIP), result=INT)
def pip_hash(self):
    return hash(repr(self))


@contract("ptypes.List.__contains__", C03, dict(self=LIST, item=PIP), result=BOOL)
def list_contains(self, item):
    return any(x == item for x in items(self))


@contract("execution.ProgramState.OBJEQUAL", C03, dict(self=PROG, lhs=PIP, rhs=PIP), result=SCALAR)
def objequal(self, lhs, rhs):
    return mkscalar(lhs == rhs)


# Freshness: here copy() of an item is an uninterpreted function, so the code
# must be shown to copy every item rather than to store an equal one.
@contract("ptypes.List.copy#fresh", C03, dict(self=LIST), result=LIST, fresh=True)
def list_copy_fresh(self):
    return mklist([copyof(x) for x in items(self)])


@contract("ptypes.List.__init__#fresh", C03, dict(self=FreshSelf("List"), value=LIST), fresh=True)
def list_init_fresh(self, value):
    self._value = [copyof(x) for x in items(value)]


@contract("ptypes.List.__init__#pylist", C03, dict(self=FreshSelf("List"), value=PYPIP), fresh=True)
def list_init_pylist(self, value):
    self._value = [copyof(x) for x in value]
