"""C12: the meta-operators fold, scan and map apply the operator to exactly the
right operands, in the right order and grouping."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S

C12 = ["C12"]
VALUE = PIP.tagset
XS = "execution.ProgramState."
EV = dict(effects=("getRval", "evaluate"), effects_raise=False, may_diverge=True)


def unbounded(v):
    return isinstance(v, P.Range) and v.getUpper() is None


def is_it(x):
    return isinstance(x, (P.Scalar, P.List, P.Range))


def lambda_over(operator, fn):
    """Applied to a function: the function that applies it to the result."""
    return P.Block(fn.getStatements(), [operator, fn.getReturnExpr()])


@contract(XS + "MAPMETA", C12, dict(self=PROG, operator=OPER, iterable=EXPR), result=PIP, **EV)
def mapmeta(self, operator, iterable):
    xs = self.getRval(iterable)
    op = operator.copy()
    op.map = False
    if isinstance(xs, P.Block):
        return lambda_over(operator, xs)
    if not is_it(xs):
        return P.nil
    out = []
    for x in xs:
        out.append(self.evaluate([op, x]))
    return mklist(out)


@contract(XS + "FOLDMETA", C12, dict(self=PROG, operator=OPER, iterable=EXPR), **EV)
def foldmeta(self, operator, iterable):
    xs = self.getRval(iterable)
    op = operator.copy()
    op.fold = False
    if isinstance(xs, P.Block):
        return lambda_over(operator, xs)
    if not is_it(xs) or unbounded(xs):
        return P.nil
    vals = [x for x in xs]
    n = len(vals)
    if n == 0:
        return P.toPipType(operator.default)
    if operator.associativity == "L":
        acc = vals[0]
        for i in range(1, n):
            acc = self.evaluate([op, acc, vals[i]])
        return acc
    if operator.associativity == "R":
        acc = vals[n - 1]
        for i in range(n - 1):
            acc = self.evaluate([op, vals[n - 2 - i], acc])
        return acc
    if operator.associativity == "C":
        if n == 1:
            return P.Scalar("1")
        return self.evaluate(chain_of(op, vals, n))
    raise ERR.FatalError()


def chain_of(op, vals, n):
    """x0 op x1 op ... op x(n-1)"""
    chain = [OPS.chain, vals[0]]
    for i in range(1, n):
        chain.append(op)
        chain.append(vals[i])
    return chain


@contract(XS + "SCANMETA", C12, dict(self=PROG, operator=OPER, iterable=EXPR), result=PIP,
          effect_result={"evaluate": VALUE}, **EV,
          raises=(ERR.FatalError,))
def scanmeta(self, operator, iterable):
    xs = self.getRval(iterable)
    op = operator.copy()
    op.scan = False
    if isinstance(xs, P.Block):
        return lambda_over(operator, xs)
    if not is_it(xs) or unbounded(xs):
        return P.nil
    vals = [x for x in xs]
    n = len(vals)
    if n == 0:
        return mklist([])
    if operator.associativity == "L":
        acc = vals[0]
        out = [acc]
        for i in range(1, n):
            acc = self.evaluate([op, acc, vals[i]])
            out.append(acc)
        return mklist(out)
    if operator.associativity == "R":
        acc = vals[n - 1]
        out = [acc]
        for i in range(n - 1):
            acc = self.evaluate([op, vals[n - 2 - i], acc])
            out.append(acc)
        return mklist([x for x in reversed(out)])
    if operator.associativity == "C":
        chain = [OPS.chain, vals[0]]
        out = [P.Scalar("1")]
        for i in range(1, n):
            chain.append(op)
            chain.append(vals[i])
            out.append(self.evaluate(chain))
        return mklist(out)
    raise ERR.FatalError()
