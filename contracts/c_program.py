"""C15/C14: running a program or a piece of code as a whole; operators that
combine others."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
import math
import version as VERSION
from pyvc import spec as S

XS = "execution.ProgramState."
FUNCTION = DYN("none", "block")
RUN = ProgDom(dict(args=PYPIP, mainFunction=FUNCTION))
RUN_VARS = ProgDom(dict(args=PYPIP, mainFunction=FUNCTION, vars=Const({})))
INNER = ProgDom(dict(localScope=ObjDom("execution", "LocalScope", dict(function=DYN("none", "block")))))


@contract(XS + "executeProgram", ["C15", "C16"], dict(self=RUN, statements=EXPRS, args=DYN("none", "pylist")),
          effects=("BLOCK", "WIPEGLOBALS", "functionCall", "print", "getRval"))
def execute_program(self, statements, args):
    """A program is a function that is called with the arguments; the
    variables are set up before, the result is printed afterwards.  An empty
    program does nothing."""
    if len(statements) > 0:
        self.args = args if args is not None else []
        self.mainFunction = self.BLOCK(statements)
        self.WIPEGLOBALS()
        v = self.functionCall(self.mainFunction, self.args)
        if v is not P.nil:
            write(str(v) + "\n")


@contract(XS + "RECURSE", ["C15"], dict(self=INNER, rhs=PIP), effects=("functionCall",))
def recurse(self, rhs):
    return self.functionCall(self.localScope.function, [rhs])


@contract(XS + "EVAL#function", ["C15"], dict(self=PROG, code=DYN("block", "nil", "list", "range", "pattern"),
                                              argList=DYN("none", "block", "nil", "list", "range", "pattern")),
          effects=("functionCall", "executeStatement", "evaluate"))
def eval_function(self, code, argList):
    """With arguments a function is called; without, its code is run in the
    scope that is current."""
    if isinstance(argList, P.Block):
        code, argList = argList, code
    if not isinstance(code, P.Block):
        return P.nil
    if argList is not None:
        return self.functionCall(code, argList)
    for s in code._statements:
        self.executeStatement(s)
    return self.evaluate(code._returnExpr)


@contract(XS + "RVALAND", ["C14"], dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def rvaland(self, lhs, rhs):
    return rhs if lhs else lhs


@contract(XS + "RVALOR", ["C14"], dict(self=PROG, lhs=PIP, rhs=PIP), result=PIP)
def rvalor(self, lhs, rhs):
    return lhs if lhs else rhs


@contract(XS + "RVALIFTE", ["C14"], dict(self=PROG, test=PIP, trueBranch=PIP, falseBranch=PIP), result=PIP)
def rvalifte(self, test, trueBranch, falseBranch):
    return trueBranch if test else falseBranch


# ---- combinations ---------------------------------------------------------------
@contract(XS + "MAPJOIN", ["C11"], dict(self=PROG, lhs=PIP, iterable=PIP), effects=("MAP",), opaque_calls=("JOIN",), may_diverge=True)
def mapjoin(self, lhs, iterable):
    return self.JOIN(self.MAP(lhs, iterable), None)


@contract(XS + "MAPFLATTEN", ["C11"], dict(self=PROG, lhs=PIP, iterable=PIP), effects=("MAP",), opaque_calls=("FLATTEN",), may_diverge=True)
def mapflatten(self, lhs, iterable):
    return self.FLATTEN(self.MAP(lhs, iterable))


@contract(XS + "FILTERJOIN", ["C11"], dict(self=PROG, function=PIP, iterable=OPT_PIP), effects=("FILTER",), opaque_calls=("JOIN",), may_diverge=True)
def filterjoin(self, function, iterable):
    return self.JOIN(self.FILTER(function, iterable), None)


# ---- the variables at the start of a program --------------------------------------
@contract(XS + "WIPEGLOBALS", ["C05"], dict(self=RUN_VARS), split_zip=True)
def wipeglobals(self):
    """Every global variable has its documented initial value; \\a to \\e, \\f
    and \\g keep the program's arguments, the main function and the list of
    all arguments."""
    v = {"_": P.Block([], X.tokens.Name("a")), "B": P.Block([], X.tokens.Name("b")), "G": P.Block([], X.tokens.Name("g")),
         "h": mkscalar("100"), "i": mkscalar("0"), "k": mkscalar(", "), "l": mklist([]), "m": mkscalar("1000"),
         "n": mkscalar("\n"), "o": mkscalar("1"), "p": mkscalar("()"), "s": mkscalar(" "), "t": mkscalar("10"),
         "u": P.nil, "v": mkscalar("-1"), "w": P.Pattern(r"\s+"), "x": mkscalar(""), "y": mkscalar(""),
         "z": mkscalar("abcdefghijklmnopqrstuvwxyz"), "AZ": mkscalar("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
         "CZ": mkscalar("bcdfghjklmnpqrstvwxyz"),
         "PA": mkscalar(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"),
         "PI": mkscalar(math.pi), "VD": mkscalar(VERSION.COMMIT_DATE), "VN": mkscalar(VERSION.VERSION),
         "VW": mkscalar("aeiou"), "VY": mkscalar("aeiouy"), "XA": P.Pattern("[a-z]", re.IGNORECASE),
         "XC": P.Pattern("[bcdfghjklmnpqrstvwxyz]"), "XD": P.Pattern(r"\d"), "XI": P.Pattern(r"-?\d+"),
         "XL": P.Pattern("[a-z]"), "XN": P.Pattern(r"-?\d+(?:\.\d+)?"), "XU": P.Pattern("[A-Z]"),
         "XV": P.Pattern("[aeiou]"), "XW": P.Pattern(r"\w"), "XX": P.Pattern("."), "XY": P.Pattern("[aeiouy]")}
    v["\\g"] = mklist(list(self.args))
    v["\\f"] = P.nil if self.mainFunction is None else self.mainFunction
    for i in range(5):
        if i < len(self.args):
            v["\\" + "abcde"[i]] = self.args[i]
    self.vars = v
