"""C13: evaluation of expressions: leaves, operand preparation, item-by-item
operators and building of functions from functions."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from pyvc import logic as L

C13 = ["C13"]
XS = "execution.ProgramState."
EV = dict(effects=("getRval", "evaluate", "ASSIGN", "MAPMETA", "FOLDMETA", "SCANMETA", "op"), may_diverge=True)


def finite_value(v):
    return not isinstance(v, P.Range) or v.getUpper() is not None


def prepared(self, op, arg):
    """An operand, brought to the form the operator asks for."""
    if op.flags & OPS.RVALS:
        return self.getRval(arg)
    if op.flags & OPS.VALS:
        return self.evaluate(arg)
    return arg


def each(op, v):
    """Does the operator work item by item on this operand?"""
    return (op.flags & OPS.RANGE_EACH and isinstance(v, P.Range)
            or op.flags & OPS.LIST_EACH and isinstance(v, P.List))


def is_lambda(self, op, v):
    """Does the operator build a function from this operand?"""
    if not op.flags & OPS.IN_LAMBDA:
        return False
    if isinstance(v, P.Block):
        return True
    return isinstance(v, X.Lval) and isinstance(self.getRval(v), P.Block)


def compose(self, op, vals, fns):
    """The function returning `op` applied to the results of the operands that
    are functions (fns[i]) and to the others as they are."""
    if not op.flags & OPS.RVALS:
        vals = [self.getRval(v) if isinstance(v, X.Lval) else v for v in vals]
    statements = []
    expr = [op]
    for v, fn in zip(vals, fns):
        if fn:
            statements = statements + v.getStatements()
            expr = expr + [v.getReturnExpr()]
        else:
            expr = expr + [v]
    return P.Block(statements, expr)


def apply(self, op, vals):
    if op.function not in dir(self):
        raise ERR.FatalError()
    return getattr(self, op.function)(*vals)


def tree(self, expression):
    op = expression[0]
    args = expression[1:]
    if op.assign:
        target = self.evaluate(args[0])
        plain = op.copy()
        plain.assign = False
        value = self.evaluate([plain, target] + args[1:])
        return self.ASSIGN(target, value)
    if op.map:
        return self.MAPMETA(op, args[0])
    if op.fold:
        return self.FOLDMETA(op, args[0])
    if op.scan:
        return self.SCANMETA(op, args[0])
    vals = []
    eachs = []
    fns = []
    for a in args:
        v = prepared(self, op, a)
        if each(op, v):
            eachs = eachs + [True]
            fns = fns + [False]
        elif is_lambda(self, op, v):
            v = self.getRval(v)
            eachs = eachs + [False]
            fns = fns + [True]
        else:
            eachs = eachs + [False]
            fns = fns + [False]
        vals = vals + [v]
    if any(fns):
        return compose(self, op, vals, fns)
    try:
        if len(args) == 1 and eachs[0]:
            out = []
            for x in vals[0]:
                out.append(self.evaluate([op, x]))
            return mklist(out)
        if len(args) == 2 and (eachs[0] or eachs[1]):
            return itemwise(self, op, vals, eachs)
        return apply(self, op, vals)
    except TypeError:
        raise ERR.FatalError()


def itemwise(self, op, vals, eachs):
    x, y = vals
    out = []
    if not eachs[1]:
        for a in x:
            out.append(self.evaluate([op, a, y]))
        return mklist(out)
    if not eachs[0]:
        for b in y:
            out.append(self.evaluate([op, x, b]))
        return mklist(out)
    if not finite_value(x) or not finite_value(y):
        undefined()         # known finding: the code stops with a Python error
    xs = [a for a in x]
    ys = [b for b in y]
    n = len(xs) if len(xs) < len(ys) else len(ys)
    for i in range(n):
        out.append(self.evaluate([op, xs[i], ys[i]]))
    # left-over items are kept unchanged
    for a in xs[n:]:
        out.append(a)
    for b in ys[n:]:
        out.append(b)
    return mklist(out)


@contract(XS + "evaluate#unary", C13, dict(self=PROG, expression=Tree(1)), **EV)
def evaluate1(self, expression):
    return tree(self, expression)


def meta(op):
    return op.assign or op.map or op.fold or op.scan


FLAGS = (0, 1, 2, 17, 18, 22, 30)


def with_flags(n, f):
    def requires(self, expression):
        op = expression[0]
        return op.flags == f and not meta(op)

    @contract(XS + f"evaluate#args{n}flags{f}", C13, dict(self=PROG, expression=Tree(n, f, False)),
              requires=requires, **EV)
    def evaluate2(self, expression):
        return tree(self, expression)


for f_ in FLAGS:
    with_flags(2, f_)
for f_ in (0, 2, 18):
    with_flags(3, f_)


def is_meta(self, expression):
    return meta(expression[0])


for n_ in (2, 3):
    @contract(XS + f"evaluate#meta{n_}", C13, dict(self=PROG, expression=Tree(n_)), requires=is_meta, **EV)
    def evaluate_meta(self, expression):
        return tree(self, expression)


# ---- leaves ---------------------------------------------------------------
def literal_value(token):
    """What a literal denotes."""
    t = token._text
    if isinstance(token, X.tokens.Nil):
        return P.nil
    if isinstance(token, X.tokens.Number):
        return rawscalar(t)
    if isinstance(token, X.tokens.String):
        return rawscalar(t[1:-1])
    if isinstance(token, X.tokens.Char):
        return rawscalar(t[1])
    if isinstance(token, X.tokens.Pattern):
        return mkpattern(t[1:-1].replace("\\`", "`"), 0)
    return rawscalar(t[2:-2].replace("\\\\", "\\"))


def literal_contracts(kind):
    @contract(f"ptypes.toPipType#{kind}", C13, dict(pyObj=TokenDom(kind)))
    def to_pip(pyObj):
        return literal_value(pyObj)

    @contract(XS + f"evaluate#{kind}", C13, dict(self=PROG, expression=TokenDom(kind)), **EV)
    def evaluate_literal(self, expression):
        return literal_value(expression)


for k_ in ("Number", "String", "EscapedString", "Pattern", "Char", "Nil"):
    literal_contracts(k_)


@contract(XS + "evaluate#values", C13, dict(self=PROG, expression=DYN("lval", *L.PIPTAGS)), **EV)
def evaluate_value(self, expression):
    return expression


@contract(XS + "evaluate#name", C13, dict(self=PROG, expression=NAME), **EV)
def evaluate_name(self, expression):
    return X.Lval(expression)


def not_tree(self, expression):
    return not isinstance(expression, list) or len(expression) == 0 or not isinstance(expression[0], OPS.Operator)


@contract(XS + "evaluate#invalid", C13, dict(self=PROG, expression=DYN("none", "int", "str", "cmd", "oper")), **EV)
def evaluate_invalid(self, expression):
    raise ERR.FatalError()


@contract(XS + "evaluate#invalidlist", C13, dict(self=PROG, expression=EXPRS), requires=not_tree, **EV)
def evaluate_invalid_list(self, expression):
    raise ERR.FatalError()


# ---- statements -------------------------------------------------------------
@contract(XS + "executeStatement#expression", C13, dict(self=PROG, statement=Tree(2)),
          effects=("getRval", "evaluate", "cmd"))
def execute_expression(self, statement):
    return self.getRval(self.evaluate(statement))


@contract(XS + "executeStatement#leaf", C13, dict(self=PROG, statement=DYN("name", "literal", "lval", *L.PIPTAGS)),
          effects=("getRval", "evaluate", "cmd"))
def execute_leaf(self, statement):
    return self.getRval(self.evaluate(statement))


def command_contract(n):
    @contract(XS + f"executeStatement#command{n}", C13, dict(self=PROG, statement=CommandTree(n)),
              effects=("getRval", "evaluate", "cmd"))
    def execute_command(self, statement):
        if statement[0].function not in dir(self):
            raise ERR.FatalError()
        self.__getattribute__(statement[0].function)(*statement[1:])
        return None


for n_ in (0, 2, 3):
    command_contract(n_)


# ---- copies of operators ------------------------------------------------------
@contract("operators.Operator.copy", C13, dict(self=OPEROBJ))
def operator_copy(self):
    return such(lambda r: r is not self and r._text == self._text and r.function == self.function
                and r.arity == self.arity and r.precedence == self.precedence
                and r.associativity == self.associativity and r.default == self.default
                and r.flags == self.flags and r.assign == self.assign and r.map == self.map
                and r.fold == self.fold and r.scan == self.scan)


# ---- the tables ------------------------------------------------------------------
from pyvc.programs import fact


@fact("operator flags are among those the evaluate contracts cover", ["C13"])
def table_flags():
    bad, n = [], 0
    allowed = {1: range(32), 2: FLAGS, 3: (0, 2, 18)}
    ops = [o for a in (1, 2, 3) for o in OPS.opsByArity[a].values()]
    ops += [OPS.chain, OPS.enlist, OPS.block, OPS.send, OPS.paren]
    for o in ops:
        n += 1
        if o.flags not in allowed.get(o.arity, range(32)):
            bad.append(f"{o!r} has flags {o.flags}")
        if o.flags & 16 and not o.flags & 3:
            bad.append(f"{o!r} builds lambdas without evaluating its operands")
    return bad, n
