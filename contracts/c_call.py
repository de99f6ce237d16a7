"""C15: function calls: arguments, scope, statements, result."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from pyvc import logic as L

C15 = ["C15"]
XS = "execution.ProgramState."
OPERAND = DYN("lval", *L.PIPTAGS)


@contract(XS + "functionCall", C15, dict(self=PROG, function=BLOCK, argList=PyListOf(OPERAND)),
          effects=("getRval", "openScope", "closeScope", "executeStatement", "updateHistoryVars"), may_diverge=True)
def function_call(self, function, argList):
    args = [self.getRval(a) if isinstance(a, X.Lval) else a for a in argList]
    self.openScope(function, args)
    try:
        for s in function._statements:
            v = self.executeStatement(s)
            if v is not None:
                self.updateHistoryVars(v)
        r = P.nil if function._returnExpr is None else self.getRval(function._returnExpr)
    except Exception:
        self.closeScope()
        raise
    self.closeScope()
    return r


@contract(XS + "updateHistoryVars", C15, dict(self=PROG, newValue=PIP), effects=("getRval", "assign", "isDefined"))
def update_history(self, newValue):
    if self.isDefined("$_"):
        if self.isDefined("$__"):
            self.assign(X.Lval("$___"), self.getRval(X.Lval("$__")))
        self.assign(X.Lval("$__"), self.getRval(X.Lval("$_")))
    self.assign(X.Lval("$_"), newValue)


@contract(XS + "SEND", C15, dict(self=PROG, head=OPERAND, tail=PyListOf(OPERAND, tup=True)),
          effects=("getRval", "functionCall", "AT"))
def send(self, head, tail):
    v = self.getRval(head) if isinstance(head, X.Lval) else head
    if isinstance(v, P.Block):
        return self.functionCall(v, tail)
    if not isinstance(head, (X.Lval, P.Scalar, P.List, P.Range)):
        return P.nil
    r = head
    for index in tail:
        r = self.AT(r, index)
    return r


@contract(XS + "LIST", C15, dict(self=PROG, items=PyListOf(OPERAND, tup=True)), effects=("getRval",))
def list_(self, items):
    if len(items) > 0 and all(isinstance(x, X.Lval) for x in items):
        return X.Lval(mklist(items))
    return mklist([self.getRval(x) for x in items])


@contract(XS + "CHAIN", C15, dict(self=PROG, chain=PyListOf(DYN("oper", *L.PIPTAGS), tup=True)), effects=("evaluate",))
def chain(self, chain):
    if len(chain) % 2 == 0:
        raise ERR.FatalError()
    r = True
    for k in range((len(chain) - 1) // 2):
        if not r:
            return r
        r = self.evaluate([chain[2 * k + 1], chain[2 * k], chain[2 * k + 2]])
    return r


def expression(t):
    """Is a statement an expression (and not a command)?"""
    if isinstance(t, list):
        return isinstance(t[0], OPS.Operator)
    return isinstance(t, (X.tokens.Name, X.tokens.Literal))


def nonempty_last(self, statements):
    return len(statements) == 0 or not isinstance(statements[-1], list) or len(statements[-1]) > 0


@contract(XS + "BLOCK", C15, dict(self=PROG, statements=EXPRS), effects=(), requires=nonempty_last)
def block(self, statements):
    if len(statements) > 0 and expression(statements[-1]):
        return P.Block(statements[:-1], statements[-1])
    return P.Block(statements, None)
