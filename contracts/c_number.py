"""C04: the numeric meaning and the truth of Scalars."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C04 = ["C04"]


@contract("ptypes.Scalar.__init__", C04,
          dict(self=FreshSelf("Scalar"), value=DYN("str", "int", "bool", "flt", "scalar", "nil", "pattern", "list",
                                                   "range", "block")), unfold=("scalar_text",))
def scalar_init(self, value):
    self._value = mktext(value)


@contract("ptypes.Scalar.__int__", C04, dict(self=SCALAR), result=INT, unfold=("scalar_int",),
          raises=(ValueError,))
def scalar_int_(self):
    return scalar_int(text(self))


@contract("ptypes.Scalar.toNumber", C04, dict(self=SCALAR), result=NUM, unfold=("scalar_num",),
          raises=(ValueError,))
def scalar_toNumber(self):
    return scalar_num(text(self))


@contract("ptypes.Scalar.__bool__", C04, dict(self=SCALAR), result=BOOL, unfold=("zero_form",))
def scalar_bool(self):
    return text(self) != "" and not zero_form(text(self))


@contract("ptypes.Scalar.isEmpty", C04, dict(self=SCALAR), result=BOOL)
def scalar_isEmpty(self):
    return len(text(self)) == 0


@contract("ptypes.Scalar.isFinite", C04, dict(self=SCALAR), result=BOOL)
def scalar_isFinite(self):
    return True


@contract("ptypes.Scalar.__str__", C04 + ["C16"], dict(self=SCALAR), result=STR)
def scalar_str(self):
    return text(self)


@contract("ptypes.Pattern.toNumber", C04, dict(self=PATTERN), result=NUM)
def pattern_toNumber(self):
    return 0


@contract("ptypes.Block.toNumber", C04, dict(self=BLOCK), result=NUM)
def block_toNumber(self):
    return 0


@contract("ptypes.Nil.toNumber", C04, dict(self=NIL), result=NUM)
def nil_toNumber(self):
    return 0


@contract("ptypes.Nil.__bool__", C04, dict(self=NIL), result=BOOL)
def nil_bool(self):
    return False


@contract("ptypes.Nil.__str__", C04 + ["C16"], dict(self=NIL), result=STR)
def nil_str(self):
    return ""


@contract("ptypes.Pattern.__bool__", C04, dict(self=PATTERN), result=BOOL)
def pattern_bool(self):
    return len(self._raw) > 0


@contract("ptypes.Pattern.__str__", C04 + ["C16"], dict(self=PATTERN), result=STR)
def pattern_str(self):
    return self._raw


@contract("ptypes.List.__bool__", C04, dict(self=LIST), result=BOOL)
def list_bool(self):
    return len(items(self)) > 0


@contract("ptypes.List.isEmpty", C04, dict(self=LIST), result=BOOL)
def list_isEmpty(self):
    return len(items(self)) == 0


@contract("ptypes.Block.__bool__", C04, dict(self=BLOCK), result=BOOL)
def block_bool(self):
    return len(self._statements) > 0 or self._returnExpr is not P.nil


@contract("ptypes.Range.toNumber", C04 + ["C21"], dict(self=RANGE))
def range_toNumber(self):
    if finite(self):
        return [k for k in range(lo(self), hi(self))]
    return []


@contract("execution.ProgramState.NOT", C04, dict(self=PROG, rhs=PIP), result=SCALAR)
def not_(self, rhs):
    return mkscalar(0 if rhs else 1)
