"""C16: the text form of values and what is written to the output."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C16 = ["C16"]
XS = "execution.ProgramState."
FORMATS = {"List.outFormat": [None, "p", "n", "s", "l", "P", "S"]}
OUT = ("getRval", "print")
OPERAND = DYN("lval", *L.PIPTAGS)


# ---- text and source forms --------------------------------------------------
@contract("ptypes.Scalar.__repr__", C16, dict(self=SCALAR), unfold=("__repr__",))
def scalar_repr(self):
    t = text(self)
    m = re.match(r"-?\d+\.\d+", t) or re.match(r"-?\d+", t)
    if m is not None and m.end() == len(t):
        return t
    if '"' in t:
        return r'\"' + t.replace("\\", r"\\") + r'\"'
    return '"' + t + '"'


@contract("ptypes.Pattern.__repr__", C16, dict(self=PATTERN), unfold=("__repr__",))
def pattern_repr(self):
    f = self._flags
    return ("A" if f & re.ASCII else "") + ("-" if f & re.IGNORECASE else "") + ("," if f & re.MULTILINE else "") + \
        ("." if f & re.DOTALL else "") + "`" + self._raw.replace("`", r"\`") + "`"


@contract("ptypes.List.__repr__", C16, dict(self=LIST), unfold=("__repr__",))
def list_repr(self):
    return "[" + ";".join([repr(x) for x in items(self)]) + "]"


@contract("ptypes.List.joined", C16, dict(self=LIST, separator=STR), result=STR)
def list_joined(self, separator):
    return separator.join([x.joined(separator) if isinstance(x, P.List) else str(x) for x in items(self)])


@contract("ptypes.List.__str__", C16, dict(self=LIST), unfold=("__str__",), cases=FORMATS)
def list_str(self):
    f = self.outFormat
    if f == "p":
        return repr(self)
    if not f or f == "n" or f == "s":
        return ("\n" if f == "n" else " " if f == "s" else "").join([str(x) for x in items(self)])
    if f == "P":
        return "\n".join([repr(x) for x in items(self)])
    inner = " " if f == "S" else ""
    return "\n".join([x.joined(inner) if isinstance(x, P.List) else str(x) for x in items(self)])


@contract("ptypes.Range.__repr__", C16, dict(self=RANGE), unfold=("__repr__",))
def range_repr(self):
    return "(" + bound(self._lower) + "," + bound(self._upper) + ")"


def bound(n):
    return "()" if n is None else str(n)


@contract("ptypes.Range.__str__", C16, dict(self=RANGE), unfold=("__str__",))
def range_str(self):
    return repr(self) if hi(self) is None else str(mklist(elements(self)))


@contract("ptypes.Nil.__repr__", C16, dict(self=NIL), unfold=("__repr__",))
def nil_repr(self):
    return "()"


@contract("ptypes.Block.__str__", C16, dict(self=BLOCK), unfold=("__str__",))
def block_str(self):
    return repr(self)


@contract(XS + "REPR", C16, dict(self=PROG, rhs=PIP), result=PIP)
def repr_(self, rhs):
    return mkscalar(repr(rhs))


@contract(XS + "STR", C16, dict(self=PROG, rhs=PIP), result=PIP)
def str_(self, rhs):
    return mkscalar(str(rhs))


# ---- writing ------------------------------------------------------------------
@contract(XS + "PRINT", C16, dict(self=PROG, expression=PIP), effects=OUT)
def print_(self, expression):
    if expression is not P.nil:
        write(str(expression) + "\n")
    return expression


@contract(XS + "OUTPUT", C16, dict(self=PROG, expression=OPERAND), effects=OUT)
def output(self, expression):
    v = self.getRval(expression)
    if v is not P.nil:
        write(str(v))
    return v


@contract(XS + "YANKOUTPUT", C16, dict(self=PROG, rhs=OPERAND), effects=OUT + ("assign", "evaluate"))
def yankoutput(self, rhs):
    v = self.getRval(rhs)
    if v is not P.nil:
        write(str(v))
    y = X.Lval("y")
    self.assign(y, rhs)
    return y


# ---- the source form reads back as the value -------------------------------------
def readable(v):
    """Values whose source form is meant to be read back as themselves:
    no functions, no unusual spellings of negative numbers, no pattern text
    that no pattern literal can denote."""
    if isinstance(v, P.Block):
        return False
    if isinstance(v, P.Scalar):
        return re.fullmatch(r"-(0\d.*|\d+\.\d*0|\d{16,}.*|0|\d+\.\d{16,})", text(v), re.DOTALL) is None and \
            (re.fullmatch(r"-\d+\.\d+", text(v)) is None or repr(float(text(v))) == text(v))
    if isinstance(v, P.Pattern):
        return re.fullmatch(r"([^\\]|\\[^`])*", v._raw, re.DOTALL) is not None and v._flags == 0 and "\\\n" not in v._raw
    if isinstance(v, P.List):
        return all(readable(x) for x in items(v))
    return True


@contract(XS + "REPR#roundtrip", C16, dict(self=PROG, rhs=PIP), bounded=True, requires=lambda self, rhs: readable(rhs))
def roundtrip(self, rhs):
    return such(lambda r: X.ProgramState().EVAL(r) == rhs)
