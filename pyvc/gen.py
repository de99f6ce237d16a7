"""Native value generation for counterexample search."""
import random
import sys

P = None             # real ptypes
EXTRA_INTS = []      # constants harvested from the source under test
EXTRA_STRS = []

INTS = [0, 1, -1, 2, -2, 3, -3, 5, 4, -4, 7, 10, -5, 6, 8, 9, 12, -7]
STRS = ["", "a", "0", "1", "-1", "2", "3", "12", "ab", "abc", "10", "-2", "0.5", "1.5", "-0", "00", "007", "-", " 5",
        "1\n", "aa", "aba", "a b", "1e3", ".5", "5.", "--1", "x\ny", "A", "z", "42", "100", "-12", "0.0", "-.5",
        "hello", "Hello", "12x", "x12", "1.20", ",", "\n2.5", "\t-7", " .5e+2", "1.5e-3x", "\n0", "3-2", "\r\n12"]
ATOMS_STR = "abA01 2-.\n,"


def mkpip(tag, x):
    pass


def S(x):
    return P.Scalar(x)


def R(a, b):
    r = object.__new__(P.Range)
    r._lower, r._upper = a, b
    return r


def LST(xs):
    r = object.__new__(P.List)
    r._value = list(xs)
    return r


def enum_tags(tags):
    out = []
    for t in ("nil", "none", "int", "bool", "scalar", "range", "list", "str", "slice", "pattern", "block", "flt",
              "pylist", "tuple"):
        if t in tags:
            out.append(ENUM[t]())
    # interleave
    res = []
    i = 0
    while any(out):
        for l in out:
            if i < len(l):
                res.append(l[i])
        i += 1
        if i > 60:
            break
    return res


def _enum_scalar():
    return [S(x) for x in STRS]


def _enum_list():
    s = [S(x) for x in ("0", "1", "2", "a", "b", "")]
    z = [S("1"), S("2"), S("3")]
    return [LST([]), LST([s[1]]), LST([s[1], s[2]]), LST(z), LST([s[2], s[1]]), LST([s[3], s[4]]),
            LST([s[0], s[0]]), LST([P.nil]), LST([LST([]), LST([s[1]])]), LST([LST(z), s[3]]),
            LST([s[1], s[1], s[2], s[1]]), LST([R(0, 3), s[1]]), LST([s[5]]), LST([LST([s[1], s[2]]), LST([s[3]])]),
            LST([S(str(i)) for i in range(5)]), LST([S("-1"), S("-2"), S("1")]), LST([S("0.5"), S("x")])]


def _enum_range():
    return [R(0, 3), R(None, 4), R(1, 5), R(0, 0), R(-2, 2), R(3, 1), R(2, None), R(None, None), R(0, None),
            R(-3, None), R(None, 0), R(5, 7), R(-5, -2), R(None, -1), R(1, 2), R(0, 1)]


def _enum_pattern():
    return [P.Pattern("a"), P.Pattern("\\d+"), P.Pattern("(a)(b)?"), P.Pattern("", 0), P.Pattern("A", 2), P.Pattern("b"),
            P.Pattern("(.)\\1"), P.Pattern("a|ab"), P.Pattern("&\\&"), P.Pattern("<&>\\0"), P.Pattern("[ab]*"), P.Pattern("^."),
            P.Pattern("\\\\1"), P.Pattern("(a)(.)\\2"), P.Pattern("(", 0)]


def _enum_block():
    return [P.Block([], None), P.Block([], P.nil)]


ENUM = {"nil": lambda: [P.nil], "none": lambda: [None], "int": lambda: INTS + EXTRA_INTS, "bool": lambda: [True, False],
        "scalar": _enum_scalar, "range": _enum_range, "list": _enum_list, "str": lambda: STRS + EXTRA_STRS,
        "slice": lambda: [slice(a, b) for a in (None, 0, 1, -1, 2, -3, 5) for b in (None, 0, 2, -1, 4, -4, 7)],
        "pattern": _enum_pattern, "block": _enum_block, "flt": lambda: [0.5, -1.5, 2.0, 0.0, 3.75, 1e10],
        "pylist": lambda: [[], [P.Scalar("1")]], "tuple": lambda: [(), (P.Scalar("1"),)]}


def rand_int(rng):
    r = rng.random()
    if EXTRA_INTS and r < 0.12:
        return rng.choice(EXTRA_INTS) + rng.choice([0, 0, 0, 1, -1])
    if r < 0.75:
        return rng.randint(-6, 8)
    if r < 0.93:
        return rng.randint(-40, 60)
    return rng.choice([rng.randint(-1000, 1000), 2 ** 31, -2 ** 31, 2 ** 63, 2 ** 64, 2 ** 53, 255, 256, 128, 127,
                       65536, 10 ** 6, 999999])


def rand_str(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(STRS)
    if EXTRA_STRS and r < 0.4:
        return rng.choice(EXTRA_STRS)
    if r < 0.6:
        return str(rand_int(rng))
    if r < 0.68:
        return f"{rng.randint(-20, 20)}.{rng.randint(0, 99)}"
    if r < 0.71:
        return rng.choice([" ", "\n", "\t", "  ", "\x0b"]) + f"{rng.choice(['', '-'])}{rng.randint(0, 30)}" + rng.choice(
            ["", ".", ".5", "e+1", ".25e-1", "x", " "])
    n = size(rng, [0, 1, 1, 2, 2, 3, 4, 5, 7])
    alpha = rng.choice(["ab", "abc", "01", ATOMS_STR, "xyz XYZ", "0123456789", "aAéß中\u0130"])
    return "".join(rng.choice(alpha) for _ in range(n))


def size(rng, usual):
    """A length: now and then one that the source under test mentions."""
    if EXTRA_INTS and rng.random() < .12:
        big = [i for i in EXTRA_INTS if 2 < i <= 70]
        if big:
            return rng.choice(big)
    return rng.choice(usual)


def rand_opt(rng):
    return None if rng.random() < 0.3 else rng.randint(-9, 14)


def magnitude(v, d=0):
    """Largest absolute integer occurring in a generated argument."""
    if isinstance(v, bool) or v is None or d > 4:
        return 0
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, float):
        return abs(v) if v == v else 0
    if isinstance(v, slice):
        return max(magnitude(v.start), magnitude(v.stop))
    if isinstance(v, (list, tuple)):
        return max([magnitude(x, d + 1) for x in v] + [0])
    if isinstance(v, str):
        try:
            return abs(float(v))
        except Exception:
            return 0
    c = type(v)
    if c is P.Scalar:
        return magnitude(v._value)
    if c is P.Range:
        return max(magnitude(v._lower), magnitude(v._upper))
    if c is P.List:
        return magnitude(v.__dict__.get("_value", []), d + 1)
    return 0


def unbounded(v, d=0):
    """Does the argument contain an unbounded Range?"""
    c = type(v)
    if c is P.Range:
        return v._upper is None
    if c is P.List:
        v = v.__dict__.get("_value", [])
        c = list
    if c in (list, tuple) and d < 5:
        return any(unbounded(x, d + 1) for x in v)
    return False


def rand_tags(rng, tags, depth=0):
    t = rng.choice(sorted(tags))
    if depth > 2 and t in ("list", "pylist", "tuple") and len(tags) > 1:
        t = rng.choice(sorted(tags - {"list", "pylist", "tuple"}))
    return RAND[t](rng, depth)


def small(rng):
    return rng.randint(-4, 7)


def _rand_range(rng, d):
    a = None if rng.random() < 0.2 else small(rng)
    b = None if rng.random() < 0.25 else small(rng)
    if rng.random() < 0.05:
        b = (a or 0) + rng.randint(0, 60)
    return R(a, b)


PIPT = frozenset(["nil", "scalar", "list", "range", "pattern", "block"])


def _rand_list(rng, d):
    r = rng.random()
    n = size(rng, [0, 1, 2, 2, 3, 3, 4, 5, 5, 7])
    if r < 0.35:
        return LST([S(small(rng)) for _ in range(n)])
    if r < 0.55:
        return LST([S(rng.choice(["a", "b", "c", "ab", "1", "", "0"])) for _ in range(n)])
    if r < 0.7 and d < 2:
        m = size(rng, [0, 1, 2, 3, 3, 4, 5])
        item = rng.choice([lambda: S(small(rng)), lambda: S(small(rng)), lambda: S(rng.choice("abc")), lambda: S(rand_str(rng))])
        return LST([LST([item() for _ in range(m if rng.random() < .7 else rng.randint(0, 3))])
                    for _ in range(min(n, 7))])
    tg = PIPT - {"block"} if rng.random() < .8 else PIPT
    return LST([rand_tags(rng, tg, d + 1) for _ in range(n)])


RAND = {"nil": lambda r, d: P.nil, "none": lambda r, d: None, "int": lambda r, d: rand_int(r),
        "bool": lambda r, d: r.random() < .5, "scalar": lambda r, d: S(rand_str(r)), "range": _rand_range,
        "list": _rand_list, "str": lambda r, d: rand_str(r),
        "slice": lambda r, d: slice(rand_opt(r), rand_opt(r)),
        "pattern": lambda r, d: P.Pattern(r.choice(["a", "b", "\\d", "[ab]", "(a)|b", "x", ".", "ab", "(.)\\1", "a|b", "\\\\&", "\\1&", "\\\\\\&", "\\\\\\1", "\\10",
                                                    "\\w*", "&", "(\\d)(\\d)\\2\\1", "\\99", "a+?b", "$", "a$|^b"]),
                                          r.choice([0, 0, 2])),
        "block": lambda r, d: r.choice(_enum_block()),
        "flt": lambda r, d: r.choice([r.uniform(-5, 5), float(r.randint(-5, 5)), r.randint(-9, 9) / 2]),
        "pylist": lambda r, d: [rand_tags(r, PIPT, d + 1) for _ in range(r.randint(0, 3))],
        "tuple": lambda r, d: tuple(rand_tags(r, PIPT, d + 1) for _ in range(r.randint(0, 3)))}


def clone(v):
    """Deep native copy of a generated argument, type-preserving."""
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, tuple):
        return tuple(clone(x) for x in v)
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    c = type(v)
    if not getattr(v, "__dict__", True) and c.__name__ in FILLED:
        return object.__new__(c)           # under construction
    if c is P.Scalar:
        r = object.__new__(c)
        r._value = v._value
        return r
    if c is P.Range:
        return R(v._lower, v._upper)
    if c is P.List:
        r = object.__new__(c)
        if "_value" in v.__dict__:
            r._value = [clone(x) for x in v._value]
        return r
    if c in (P.Pattern,):
        p = P.Pattern(v._raw, v._flags)
        p._compiled, p._separator = getattr(v, "_compiled", None), getattr(v, "_separator", None)
        return p
    h = CLONERS.get(c)
    if h:
        return h(v)
    return v


CLONERS = {}
FILLED = ("Scalar", "List", "Range", "Pattern", "Block", "Lval", "LocalScope")


def show(v):
    """Readable reproduction of a native value."""
    if P is not None:
        if v is P.nil:
            return "nil"
        if type(v).__name__ in FILLED and not getattr(v, "__dict__", 1):
            return f"<new {type(v).__name__}>"
        if type(v) is P.Scalar:
            return f"Scalar({v._value!r})"
        if type(v) is P.List:
            return "List([" + ", ".join(show(x) for x in getattr(v, "_value", [])) + "])"
        if type(v) is P.Range:
            return f"Range<{v._lower},{v._upper}>"
        if type(v) is P.Pattern:
            return f"Pattern({v._raw!r}, {int(v._flags)})"
        if type(v) is P.Block:
            return f"Block({show(v._statements)}, {show(v._returnExpr)})"
        if X is not None:
            if type(v) is X.Lval:
                return f"Lval({show(v.base)}, {show(v.sliceList)}, {show(v.evaluated)})"
            if isinstance(v, X.ops.Operator):
                return f"<{v} {v.function}/{v.arity}>"
            if isinstance(v, X.tokens.Token):
                return f"{type(v).__name__}({v._text!r})"
            if isinstance(v, X.ProgramState):
                return f"<ProgramState {getattr(v, '_seed', '')}>"
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ",)"
    return repr(v)


X = None             # the real execution module


# ---------------------------------------------------------------------------
# syntax objects
# ---------------------------------------------------------------------------
def ops_table():
    ops = X.ops
    out = []
    for ar in (1, 2, 3):
        seen = set()
        for o in ops.opsByArity[ar].values():
            if o.function not in seen:
                seen.add(o.function)
                out.append(o)
    return out


def _op(text, arity, **kw):
    o = X.ops.opsByArity[arity][text].copy()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def _enum_oper():
    ops = X.ops
    out = [_op("+", 2), _op("-", 1), _op("J", 2), _op("<", 2), _op("**", 2), ops.chain.copy(), ops.enlist.copy(),
           _op("+", 2, fold=True), _op("-", 1, map=True), _op("+", 2, scan=True), _op("+", 2, assign=True),
           _op(":", 2), _op("?", 3), _op("UQ", 1), _op("==", 2), _op("PU", 2), _op("X", 2)]
    return out + [o.copy() for o in ops_table()]


def _rand_oper(rng, d):
    tab = ops_table()
    o = (rng.choice(tab) if rng.random() < .7 else rng.choice([X.ops.chain, X.ops.enlist, X.ops.block, X.ops.send,
                                                               X.ops.paren])).copy()
    if rng.random() < .25:
        setattr(o, rng.choice(["assign", "map", "fold", "scan"]), True)
    return o


def _enum_lval():
    L = X.Lval
    return [L("x"), L("a"), L("$_"), L(L("l"), S("1")), L(LST_raw([L("x"), L("y")]))]


def LST_raw(xs):
    r = object.__new__(P.List)
    r._value = list(xs)
    return r


def _enum_name():
    t = X.tokens
    return [t.Name("x"), t.Name("a"), t.Name("$_"), t.Name("zz")]


def _enum_literal():
    t = X.tokens
    return [t.Number("5"), t.String('"ab"'), t.Char("'c"), t.Nil(), t.Pattern("`a+`")]


def _rand_expr(rng, d):
    r = rng.random()
    if r < .25 or d > 2:
        return rng.choice(_enum_name())
    if r < .5:
        return rng.choice(_enum_literal())
    if r < .6:
        return rand_tags(rng, PIPT - {"block"}, 2)
    o = _rand_oper(rng, d)
    return [o] + [_rand_expr(rng, d + 1) for _ in range(max(1, min(3, o.arity)))]


def _enum_cmd():
    return list(X.ops.commands.values())


def _rand_block(rng, d):
    if d > 1 or rng.random() < .3:
        return rng.choice(_enum_block())
    n = rng.choice([0, 0, 1, 2, 3])
    st = [_rand_expr(rng, d + 1) for _ in range(n)]
    return P.Block(st, rng.choice([None, P.nil, _rand_expr(rng, d + 1), _rand_expr(rng, d + 1)]))


def _enum_tokens(cls, texts):
    return lambda: [getattr(X.tokens, cls)(t) for t in texts()]


TOKENS = {"optok": _enum_tokens("Operator", lambda: sorted(X.ops.operators)),
          "cmdtok": _enum_tokens("Command", lambda: sorted(X.ops.commands)),
          "symtok": _enum_tokens("Symbol", lambda: list("[](){};$") + ["\\$", "EL"])}
ENUM.update(TOKENS)
RAND.update({k: (lambda f: lambda r, d: r.choice(f()))(f) for k, f in TOKENS.items()})
ENUM.update({"oper": _enum_oper, "lval": _enum_lval, "name": _enum_name, "literal": _enum_literal, "cmd": _enum_cmd})
RAND.update({"oper": _rand_oper, "lval": lambda r, d: r.choice(_enum_lval()),
             "name": lambda r, d: r.choice(_enum_name()), "literal": lambda r, d: r.choice(_enum_literal()),
             "cmd": lambda r, d: r.choice(_enum_cmd()), "block": _rand_block})


def clone_lval(v):
    r = object.__new__(X.Lval)
    r.base = clone(v.base)
    r.sliceList = [clone(x) for x in v.sliceList]
    r.evaluated = clone(v.evaluated)
    return r


def clone_oper(o):
    if o is X.ops.chain:
        return o            # there is only one
    r = object.__new__(type(o))
    r.__dict__.update(o.__dict__)
    return r


def clone_block(b):
    r = object.__new__(P.Block)
    r.__dict__.update({k: clone(v) for k, v in b.__dict__.items()})
    return r


# ---------------------------------------------------------------------------
# interpreter states: the abstract effects are recorded
# ---------------------------------------------------------------------------
def new_state(seed):
    """A real ProgramState (warnings off)."""
    st = object.__new__(X.ProgramState)
    X.ProgramState.__init__(st)
    st._seed = seed
    return st


VARNAMES = ["a", "$___", "$____", "b", "e", "f", "g", "h", "x", "y", "z", "l", "$_", "$__", "$0", "$$", "$(", "$", "AZ", "Z", "ab", "ABC",
            "", "_", "\\a", "zz", "c", "i", "$_x"]


def scoped_state(seed):
    """A real ProgramState with random variables and 1 to 3 scopes."""
    r = random.Random(seed)
    st = new_state(seed)
    st._scoped = True

    def table():
        d = {}
        for n in VARNAMES:
            if r.random() < .6:
                d[n] = rand_tags(r, PIPT if r.random() < .4 else {"list", "scalar"}, 0)
        return d
    for _ in range(r.randint(0, 2)):
        s = X.LocalScope()
        st.scopes.append(s)
    for s in st.scopes:
        s.vars = table()
    st.localScope = st.scopes[-1]
    st.callDepth = r.randint(-1, 5)
    st.vars = table()
    return st


def clone_state(st):
    if getattr(st, "_scoped", False):
        return scoped_state(st._seed)
    r = new_state(st._seed)
    if hasattr(st, "_fields"):
        r._fields = st._fields
        for k in st._fields:
            setattr(r, k, clone(getattr(st, k)))
    return r


RESULT_TAGS = {}


def instrument(st, effects, results=None):
    """Replace the operations in `effects` by a deterministic recorder: the
    n-th call gives a value that depends on the seed, n, the operation and
    its arguments only."""
    from . import effects as EF
    trace = []
    st._trace = trace
    reads = []
    st._limit = 400

    looping = bool({"evaluate", "op", "functionCall"} & set(effects))

    def recorder(name, label):
        def f(*args, **kw):
            if name in EF.IDENTITY and len(args) == 1 and not kw:
                x = args[0]
                if isinstance(x, P.PipType) or name == "getRval" and isinstance(x, X.ops.Operator) or \
                        name == "evaluate" and isinstance(x, X.Lval):
                    return x
                if name == "getRval" and isinstance(x, X.Lval):
                    # reading an lvalue again has no effect (see effects.py)
                    for y, v in reads:
                        if x is y:
                            return clone(v)
                    v = record(*args)
                    reads.append((x, v))
                    return clone(v)
            if kw:
                import inspect
                b = inspect.signature(getattr(X.ProgramState, label)).bind(st, *args, **kw)
                b.apply_defaults()
                args = tuple(b.args[1:])
            reads.clear()
            return record(*args)

        def record(*args):
            if label in EF.READS and hasattr(st, "_fields"):
                args += tuple(getattr(st, k) for k in EF.READS[label] if k in st._fields)
            snap = tuple(clone(a) for a in args)
            key = f"{st._seed}|{len(trace)}|{label}|" + "|".join(show(a) for a in args)
            r = random.Random(key)
            if "print" in effects and hasattr(sys.stdout, "getvalue"):
                snap += (sys.stdout.getvalue(),)
            trace.append((label, snap))
            if len(trace) > st._limit:
                raise X.FatalError("too many effects")
            if r.random() < .02:
                raise X.FatalError("effect failed")
            if name == "op" and r.random() < .03:
                raise TypeError("operator function")
            tags = EF.RESULT.get(name, EF.PIP | {"lval"})
            if name == "evaluate" and isinstance(args[0], list) and len(args[0]) > 1 and \
                    isinstance(args[0][0], X.ops.Operator) and all(isinstance(a, P.PipType) for a in args[0][1:]):
                tags = EF.PIP
            if results and name in results:
                tags = results[name]
            if "none" in tags and (len(tags) == 1 or r.random() < .3):
                return None
            tags = set(tags) - {"none"}
            if tags == {"bool"}:
                return r.random() < .5
            if tags == {"pylist"}:
                return [rand_tags(r, {"scalar", "nil"}, 2) for _ in range(r.randint(1, 3))]
            if "lval" in tags and len(tags) > 1 and r.random() < .75:
                tags -= {"lval"}
            if len(tags) > 2 and r.random() < .5:
                tags = {"scalar", "list"}
            if "block" in tags and r.random() < .12:
                v = _rand_block(r, 0)
            else:
                v = rand_tags(r, tags, 1)
            if isinstance(v, P.Range) and v._upper is None and r.random() < (.8 if looping else .3):
                v = R(v._lower, r.randint(0, 5))
            return v
        return f
    for e in effects:
        if e == "print":
            continue
        if e == "op":
            names = set()
            for ar in (1, 2, 3):
                names |= {o.function for o in X.ops.opsByArity[ar].values()}
            names |= {o.function for o in (X.ops.chain, X.ops.enlist, X.ops.block, X.ops.send, X.ops.paren)}
            for n in sorted(names):
                if n not in effects:
                    setattr(st, n, recorder("op", n))
        elif e == "cmd":
            for c in X.ops.commands.values():
                setattr(st, c.function, recorder("cmd", c.function))
        else:
            setattr(st, e, recorder(e, e))
    st.specialVars = {"q": {"get": st.getq}, "r": {"get": st.getr, "set": st.setr}}
