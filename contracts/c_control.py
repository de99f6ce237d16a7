"""C14: control flow evaluates exactly the right parts, in order."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C14 = ["C14"]
XS = "execution.ProgramState."
RUN = ("getRval", "evaluate", "executeStatement", "assign")


@contract(XS + "AND", C14, dict(self=PROG, lhs=EXPR, rhs=EXPR), result=PIP, effects=RUN)
def and_(self, lhs, rhs):
    v = self.getRval(lhs)
    return self.getRval(rhs) if v else v


@contract(XS + "OR", C14, dict(self=PROG, lhs=EXPR, rhs=EXPR), result=PIP, effects=RUN)
def or_(self, lhs, rhs):
    v = self.getRval(lhs)
    return v if v else self.getRval(rhs)


@contract(XS + "IFTE", C14, dict(self=PROG, test=EXPR, trueBranch=EXPR, falseBranch=EXPR), effects=RUN)
def ifte(self, test, trueBranch, falseBranch):
    return self.evaluate(trueBranch if self.getRval(test) else falseBranch)


@contract(XS + "IF", C14, dict(self=PROG, cond=EXPR, code=EXPRS, elseCode=EXPRS), effects=RUN)
def if_(self, cond, code, elseCode):
    for s in (code if self.getRval(cond) else elseCode):
        self.executeStatement(s)


@contract(XS + "FOR", C14, dict(self=PROG, loopVar=EXPR, iterable=EXPR, code=EXPRS), effects=RUN, may_diverge=True)
def for_(self, loopVar, iterable, code):
    target = self.evaluate(loopVar)
    values = self.getRval(iterable)
    if isinstance(values, (P.Scalar, P.List, P.Range, P.Pattern)):
        for item in values:
            self.assign(target, item)
            for s in code:
                self.executeStatement(s)


@contract(XS + "LOOP", C14, dict(self=PROG, count=EXPR, code=EXPRS), effects=RUN)
def loop(self, count, code):
    n = self.getRval(count)
    times = 0
    if isinstance(n, P.Scalar):
        times = int(n)
    elif isinstance(n, (P.List, P.Range)):
        times = len(n)
    for _ in range(times):
        for s in code:
            self.executeStatement(s)


@contract(XS + "WHILE", C14, dict(self=PROG, cond=EXPR, code=EXPRS), effects=RUN, may_diverge=True)
def while_(self, cond, code):
    while self.getRval(cond):
        for s in code:
            self.executeStatement(s)


@contract(XS + "TILL", C14, dict(self=PROG, cond=EXPR, code=EXPRS), effects=RUN, may_diverge=True)
def till(self, cond, code):
    while not self.getRval(cond):
        for s in code:
            self.executeStatement(s)
