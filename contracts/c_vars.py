"""C05: variables - where a name lives, reading, assigning, scopes."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from pyvc import logic as L

C05 = ["C05"]
XS = "execution.ProgramState."
INDEX = DYN("int", "slice")
NO = DYN("none")


def VAR(*slices, evaluated=NO, base=VARNAME):
    return ObjDom("execution", "Lval", {"base": base, "sliceList": slices[0], "evaluated": evaluated}, mutable=True)


def plain(name):
    """An ordinary variable (not q or r, whose use has an effect; three-letter
    words have a special meaning that is left out)."""
    return not (name == "q" or name == "r") and not (len(name) == 3 and name.isalpha())


def table(self, name):
    """Local variables are a to g and those made of $ and underscores."""
    if name in "abcdefg" or re.fullmatch(r"\$_+", name):
        return self.localScope.vars
    return self.vars


def unbounded(v):
    return isinstance(v, P.Range) and hi(v) is None


@contract("ptypes.List.__setitem__", ["C02", "C05"], dict(self=MutList(), index=INDEX, item=PIP),
          raises=(ZeroDivisionError, TypeError),
          requires=lambda self, index, item: isinstance(index, int) or not unbounded(item))
def list_setitem(self, index, item):
    xs = items(self)
    n = len(xs)
    if isinstance(index, int):
        if n == 0:
            raise ZeroDivisionError
        i = index % n
        self._value = xs[:i] + [item] + xs[i + 1:]
    else:
        new = list(item)
        a = 0 if index.start is None else index.start
        b = n if index.stop is None else index.stop
        a = max(0, a + n) if a < 0 else min(a, n)
        b = max(0, b + n) if b < 0 else min(b, n)
        self._value = xs[:a] + new + xs[max(a, b):]


@contract("ptypes.Scalar.__setitem__", ["C02", "C05"], dict(self=MutScalar(), index=INDEX, item=PIP),
          raises=(ZeroDivisionError,))
def scalar_setitem(self, index, item):
    s = text(self)
    n = len(s)
    if isinstance(index, int):
        if n == 0:
            raise ZeroDivisionError
        i = index % n
        self._value = s[:i] + str(item) + s[i + 1:]
    else:
        a = 0 if index.start is None else index.start
        b = n if index.stop is None else index.stop
        a = max(0, a + n) if a < 0 else min(a, n)
        b = max(0, b + n) if b < 0 else min(b, n)
        self._value = s[:a] + str(item) + s[max(a, b):]


@contract(XS + "isDefined", C05, dict(self=SCOPES, varName=VARNAME))
def is_defined(self, varName):
    return varName in table(self, varName)


@contract(XS + "assign#name", C05, dict(self=SCOPES, lval=VAR(PyListOf(INDEX, maxlen=0)), rval=PIP), fresh=True,
          requires=lambda self, lval, rval: plain(lval.base))
def assign_name(self, lval, rval):
    table(self, lval.base)[lval.base] = copyof(rval)


@contract(XS + "assign#item", C05, dict(self=SCOPES, lval=VAR(PyListOf(INDEX, minlen=1, maxlen=1)), rval=PIP), fresh=True,
          opaque_calls=("__setitem__",),
          requires=lambda self, lval, rval: plain(lval.base) and (isinstance(lval.sliceList[0], int) or not unbounded(rval)))
def assign_item(self, lval, rval):
    t = table(self, lval.base)
    name = lval.base
    if name not in t:
        return
    v = t[name]
    if not isinstance(v, (P.List, P.Scalar, P.Range)):
        return
    if isinstance(v, P.Range) and hi(v) is None:
        undefined()
    if isinstance(v, P.Range):
        v = mklist(elements(v))
        t[name] = v
    try:
        v[lval.sliceList[0]] = copyof(rval)
    except (IndexError, ZeroDivisionError):
        pass


def updated(v, path, new):
    """v with the item at the path of indices replaced, a new value."""
    i = path[0]
    if not isinstance(v, (P.List, P.Scalar)):
        undefined()
    if len(v) == 0 and isinstance(i, int):
        return v
    if len(path) == 1:
        if isinstance(i, slice) and unbounded(new):
            undefined()
        v = copyof(v)
        v[i] = new
        return v
    if isinstance(i, slice) or isinstance(v, P.Scalar):
        updated(v[i], path[1:], new)       # changes a copy only
        return v
    xs = items(v)
    i %= len(xs)
    return mklist(xs[:i] + [updated(xs[i], path[1:], new)] + xs[i + 1:])


@contract(XS + "assign#nested", C05, dict(self=SCOPES, lval=VAR(PyListOf(INDEX, minlen=2, maxlen=4)), rval=PIP), fresh=True,
          bounded=True, requires=lambda self, lval, rval: plain(lval.base) and not unbounded(rval) and
          isinstance(rval, P.PipIterable))
def assign_nested(self, lval, rval):
    t = table(self, lval.base)
    v = t.get(lval.base)
    if unbounded(v):
        undefined()
    if isinstance(v, P.Range):
        v = t[lval.base] = mklist(elements(v))
    if isinstance(v, (P.List, P.Scalar)):
        t[lval.base] = updated(v, lval.sliceList, copyof(rval))


@contract(XS + "getRval#variable", C05, dict(self=SCOPES, expr=VAR(PyListOf(INDEX))), fresh="result",
          opaque_calls=("__getitem__",),
          requires=lambda self, expr: plain(expr.base))
def get_variable(self, expr):
    t = table(self, expr.base)
    if expr.base not in t:
        return P.nil
    v = t[expr.base]
    try:
        for index in expr.sliceList:
            if not isinstance(v, P.PipIterable):
                return P.nil
            v = v[index]
    except IndexError:
        return P.nil
    return copyof(v)


ANYVAR = VAR(PyListOf(INDEX), evaluated=DYN("none", *L.PIPTAGS), base=Const("q", "r"))


@contract(XS + "getRval#special", C05, dict(self=SCOPES, expr=ANYVAR), effects=("getq", "getr"), fresh="result",
          opaque_calls=("__getitem__",))
def get_special(self, expr):
    """q reads a line and r a random number, once per evaluated occurrence."""
    if expr.evaluated is None:
        expr.evaluated = self.getq() if expr.base == "q" else self.getr()
    v = expr.evaluated
    try:
        for index in expr.sliceList:
            if not isinstance(v, P.PipIterable):
                return P.nil
            v = v[index]
    except IndexError:
        return P.nil
    return copyof(v)


@contract(XS + "assign#special", C05, dict(self=SCOPES, lval=ANYVAR, rval=PIP), effects=("setr",))
def set_special(self, lval, rval):
    """r is seeded by assigning to it; q cannot be assigned to."""
    if lval.base == "r" and len(lval.sliceList) == 0:
        self.setr(rval)


@contract(XS + "getRval#value", C05, dict(self=PROG, expr=DYN("oper", *L.PIPTAGS)))
def get_value(self, expr):
    return expr


@contract(XS + "getRval#expression", C05, dict(self=PROG, expr=UNEVALUATED), effects=("evaluate",),
          effect_result={"evaluate": L.PIPTAGS},
          note="an lvalue given by evaluate is read as in the other variants")
def get_expression(self, expr):
    return self.evaluate(expr)


@contract(XS + "getRval#list", C05, dict(self=PROG, expr=VAR(PyListOf(INDEX, maxlen=0), base=LVALS)), effects=("getRval",))
def get_list(self, expr):
    """A list of variables denotes the list of their values."""
    return mklist([self.getRval(x) for x in items(expr.base)])


@contract(XS + "assign#list", C05, dict(self=PROG, lval=VAR(PyListOf(INDEX, maxlen=0), base=LVALS), rval=PIP), effects=("assign",),
          may_diverge=True)
def assign_list(self, lval, rval):
    """Destructuring: each variable gets the corresponding item, nil where
    there is none; further items are ignored."""
    targets = items(lval.base)
    if not isinstance(rval, (P.PipIterable, P.Nil, P.Pattern)):
        return
    if isinstance(rval, P.Range) and hi(rval) is None:
        for i in range(len(targets)):
            self.assign(targets[i], mkscalar(lo(rval) + i))
        return
    xs = elements(rval)
    for x, y in itertools.zip_longest(targets, xs):
        if x is None:
            break
        elif y is None:
            self.assign(x, P.nil)
        else:
            self.assign(x, y)


@contract("execution.LocalScope.__init__", C05, dict(self=FreshSelf("LocalScope", "execution"), function=BLOCK, argList=PYPIP), split_zip=True)
def scope_init(self, function, argList):
    """Arguments are called a to e, the function f and all arguments g."""
    self.function = function
    self.argList = argList
    self.vars = {}
    for name, arg in zip("abcde", argList):
        self.vars[name] = arg
    self.vars["f"] = function
    self.vars["g"] = mklist(argList)


@contract(XS + "openScope", C05, dict(self=STACK, function=BLOCK, argList=PYPIP), split_zip=True)
def open_scope(self, function, argList):
    self.callDepth += 1
    scope = X.LocalScope()
    scope.function = function
    scope.argList = argList
    for name, arg in zip("abcde", argList):
        scope.vars[name] = arg
    scope.vars["f"] = function
    scope.vars["g"] = mklist(argList)
    self.localScope = scope
    self.scopes.append(scope)


@contract(XS + "closeScope", C05, dict(self=STACK))
def close_scope(self):
    self.callDepth -= 1
    self.scopes = self.scopes[:-1]
    self.localScope = self.scopes[-1] if len(self.scopes) > 0 else None


@contract("execution.Lval.__init__", C05, dict(self=FreshSelf("Lval", "execution"), base=VARNAME))
def lval_init(self, base):
    self.base = base
    self.sliceList = []
    self.evaluated = None


@contract("execution.Lval.copy", C05, dict(self=VAR(PyListOf(INDEX), evaluated=DYN("none", *L.PIPTAGS))))
def lval_copy(self):
    r = X.Lval(self.base)
    r.sliceList = list(self.sliceList)
    r.evaluated = self.evaluated
    return r
