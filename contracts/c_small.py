"""Small methods the other contracts rely on: what the types, tokens and
left values answer about themselves."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from pyvc import logic as L

OPERAND = DYN("lval", *L.PIPTAGS)

C03, C04, C05, C17 = ["C03"], ["C04"], ["C05"], ["C17"]
XS = "execution.ProgramState."


# ---- functions ----------------------------------------------------------------
@contract("ptypes.Block.getStatements", C03, dict(self=BLOCK))
def block_get_statements(self):
    return self._statements


@contract("ptypes.Block.getReturnExpr", C03, dict(self=BLOCK))
def block_get_return(self):
    return self._returnExpr


@contract("ptypes.Block.isExpr", C03, dict(self=BLOCK))
def block_is_expr(self):
    return len(self._statements) == 0


@contract("ptypes.Block.isEmpty", C04, dict(self=BLOCK))
def block_is_empty(self):
    return len(self._statements) == 0 and self._returnExpr is P.nil


@contract("ptypes.Block.isFinite", C03, dict(self=BLOCK))
def block_is_finite(self):
    return True


# ---- nil ----------------------------------------------------------------------
@contract("ptypes.Nil.isEmpty", C04, dict(self=NIL))
def nil_is_empty(self):
    return True


@contract("ptypes.Nil.isFinite", C03, dict(self=NIL))
def nil_is_finite(self):
    return True


@contract("ptypes.Nil.__getitem__", ["C02"], dict(self=NIL, index=DYN("int", "slice", "scalar", "range", "list", "nil")))
def nil_getitem(self, index):
    return P.nil


# ---- lists, patterns -----------------------------------------------------------
@contract("ptypes.List.isFinite", C03, dict(self=LIST))
def list_is_finite(self):
    return True


@contract("ptypes.Pattern.isFinite", C03, dict(self=PATTERN))
def pattern_is_finite(self):
    return True


@contract("ptypes.List.append", C03, dict(self=MutList(), item=DYN("int", "str", "none", *L.PIPTAGS)),
          raises=(TypeError,))
def list_append(self, item):
    if not isinstance(item, P.PipType):
        raise TypeError
    self._value = items(self) + [item]


@contract("ptypes.List.extend", C03, dict(self=MutList(), iterable=PIP), raises=(TypeError, ValueError))
def list_extend(self, iterable):
    if isinstance(iterable, P.Range) and hi(iterable) is None:
        raise ValueError
    if not isinstance(iterable, P.PipIterable):
        raise TypeError
    self._value = items(self) + list(iterable)


# ---- left values ----------------------------------------------------------------
@contract(XS + "PARENTHESIZE", ["C13"], dict(self=PROG, expr=OPERAND))
def parenthesize(self, expr):
    return expr


# ---- tokens -------------------------------------------------------------------
TOKEN = DYN("name", "literal", "optok", "symtok", "cmdtok")


@contract("tokens.Token.__str__", C17, dict(self=TOKEN))
def token_str(self):
    return self._text


@contract("tokens.Token.__eq__", C17, dict(self=TOKEN, rhs=DYN("str", "name", "literal", "optok", "symtok", "cmdtok", "none")))
def token_eq(self, rhs):
    if isinstance(rhs, X.tokens.Token):
        return self._text == rhs._text
    return isinstance(rhs, str) and self._text == rhs


@contract("tokens.Token.__getitem__", C17, dict(self=TOKEN, rhs=INT), raises=(IndexError,))
def token_getitem(self, rhs):
    return self._text[rhs]


@contract("tokens.Token.__hash__", C17, dict(self=TOKEN))
def token_hash(self):
    return hash(self._text)


@contract("execution.Lval.__eq__", C05, dict(self=LVAL, rhs=DYN("lval", "str", "list", "name")))
def lval_eq(self, rhs):
    if isinstance(rhs, X.Lval):
        return self.base == rhs.base and self.sliceList == rhs.sliceList
    return self.base == rhs and len(self.sliceList) == 0


@contract("parsing.isExpr", C17, dict(tree=DYN("pylist", "name", "literal")))
def is_expr(tree):
    return not isinstance(tree, list) or isinstance(tree[0], OPS.Operator)
