"""C19: operators that use patterns, and the composition of patterns."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc import spec as S
from c_vars import VAR, INDEX

C19 = ["C19"]
XS = "execution.ProgramState."
RX = dict(effects=("assignRegexVars",), raises=(re.error,), may_diverge=True)
RXI = dict(RX, raises=RX['raises'] + (IndexError,))
RXT = dict(RX, raises=RX['raises'] + (TypeError,))
RXCALL = dict(effects=("assignRegexVars", "functionCall"), raises=(re.error,), may_diverge=True)


SCALAR_NIL = TagDom("scalar", "nil")


def listlike(v):
    return isinstance(v, (P.List, P.Range))


def wrapped(raw, flags):
    return P.Pattern("(?:" + raw + ")" if len(raw) > 1 else raw, flags)


def pattern_of(self, v):
    """A string stands for the pattern that matches exactly it."""
    return wrapped(re.escape(text(v)), 0) if isinstance(v, P.Scalar) else v


def sides(self, string, regex):
    """(string, regex): the pattern may be on either side, and two strings
    are a string and a pattern."""
    if isinstance(string, P.Pattern) and isinstance(regex, P.Scalar):
        return regex, string
    return string, pattern_of(self, regex)


@contract("ptypes.Pattern.wrap", C19, dict(self=PATTERN), result=PATTERN)
def wrap(self):
    return wrapped(self._raw, self._flags)


@contract("ptypes.Pattern.group", C19, dict(self=PATTERN), result=PATTERN)
def group(self):
    return P.Pattern("(" + self._raw + ")", self._flags)


@contract("ptypes.Pattern.kleeneStar", C19, dict(self=PATTERN), result=PATTERN)
def kleenestar(self):
    return P.Pattern(self._raw + "*", self._flags)


@contract("ptypes.Pattern.plus", C19, dict(self=PATTERN), result=PATTERN)
def plus(self):
    return P.Pattern(self._raw + "+", self._flags)


@contract("ptypes.Pattern.concat", C19, dict(self=PATTERN, other=PATTERN), result=PATTERN)
def concat(self, other):
    return P.Pattern(self._raw + other._raw, self._flags | other._flags)


@contract("ptypes.Pattern.alternate", C19, dict(self=PATTERN, other=PATTERN), result=PATTERN)
def alternate(self, other):
    return P.Pattern(self._raw + "|" + other._raw, self._flags | other._flags)


@contract("ptypes.Pattern.__len__", C19, dict(self=PATTERN))
def plen(self):
    return len(self._raw)


@contract(XS + "REGEX", C19, dict(self=PROG, rhs=PIP), result=PIP, may_diverge=True)
def regex(self, rhs):
    if isinstance(rhs, P.Pattern):
        return rhs
    if isinstance(rhs, P.Scalar):
        return wrapped(re.escape(text(rhs)), 0)
    if isinstance(rhs, P.Range):
        return wrapped("|".join([re.escape(str(x)) for x in rhs]), 0)
    if isinstance(rhs, P.List):
        return wrapped("|".join([str(self.REGEX(x)) for x in rhs]), 0)
    return P.nil


@contract(XS + "KLEENESTAR", C19, dict(self=PROG, rhs=PIP), result=PIP, may_diverge=True)
def kleene(self, rhs):
    if isinstance(rhs, P.Pattern):
        r = wrapped(rhs._raw, rhs._flags)
    elif isinstance(rhs, (P.Scalar, P.Range)):
        r = self.REGEX(rhs)
    else:
        return P.nil
    return P.Pattern(r._raw + "*", r._flags)


@contract(XS + "FULLMATCH", C19, dict(self=PROG, string=PIP, regex=PIP), result=PIP, **RX)
def fullmatch(self, string, regex):
    s, r = sides(self, string, regex)
    if listlike(s) and isinstance(r, P.Pattern):
        ok = 1
        for x in s:
            if not self.FULLMATCH(r, x):
                ok = 0
                break
        return mkscalar(ok)
    if not (isinstance(s, P.Scalar) and isinstance(r, P.Pattern)):
        return mkscalar("0")
    m = r.asRegex().fullmatch(text(s))
    if m is None:
        return mkscalar("0")
    self.assignRegexVars(m)
    return mkscalar("1")


@contract(XS + "FIRSTMATCH", C19, dict(self=PROG, string=PIP, regex=PIP), result=PIP, **RX)
def firstmatch(self, string, regex):
    s, r = sides(self, string, regex)
    if not (isinstance(s, P.Scalar) and isinstance(r, P.Pattern)):
        return P.nil
    m = r.asRegex().search(text(s))
    if m is None:
        return P.nil
    self.assignRegexVars(m)
    return mkscalar(m.group())


@contract(XS + "LOOPREGEX", C19 + ["C14"], dict(self=PROG, regex=EXPR, string=EXPR, code=EXPRS),
          effects=("getRval", "assignRegexVars", "executeStatement"), raises=(re.error,), may_diverge=True)
def loopregex(self, regex, string, code):
    r = self.getRval(regex)
    s = self.getRval(string)
    s, r = sides(self, s, r)
    if isinstance(s, P.Scalar) and isinstance(r, P.Pattern):
        for m in r.asRegex().finditer(text(s)):
            self.assignRegexVars(m)
            for statement in code:
                self.executeStatement(statement)


@contract(XS + "MAPREGEX", C19 + ["C11"], dict(self=PROG, lhs=PIP, regex=PIP, string=PIP), result=PIP, **RXCALL)
def mapregex(self, lhs, regex, string):
    f, r, s = lhs, regex, string
    if isinstance(r, P.Block):
        f, r = r, f
    elif isinstance(s, P.Block):
        f, s = s, f
    s, r = sides(self, s, r)
    if not (isinstance(f, P.Block) and isinstance(r, P.Pattern) and isinstance(s, P.Scalar)):
        return P.nil
    out = []
    for m in r.asRegex().finditer(text(s)):
        out.append(self.functionCall(f, self.assignRegexVars(m)))
    return mklist(out)


@contract(XS + "REMOVE#string", C19, dict(self=PROG, lhs=SCALAR_NIL, rhs=PIP), result=SCALAR_NIL, raises=(re.error,),
          may_diverge=True, callee=True)
def remove(self, lhs, rhs):
    if lhs is P.nil:
        return P.nil
    if isinstance(rhs, P.Scalar):
        return mkscalar(text(lhs).replace(text(rhs), ""))
    if isinstance(rhs, P.Pattern):
        return mkscalar(rhs.asRegex().sub("", text(lhs)))
    if rhs is P.nil:
        return lhs
    if isinstance(rhs, P.Block):
        return P.nil
    out = lhs
    for x in rhs:
        out = self.REMOVE(out, x)
    return mkscalar(out)


@contract(XS + "SPLIT", C19, dict(self=PROG, string=PIP, sep=OPT_PIP), result=PIP, raises=(re.error,))
def split(self, string, sep):
    if sep is not None and not isinstance(sep, (P.Scalar, P.Pattern)) or not isinstance(string, P.Scalar):
        return P.nil
    if sep is None or str(sep) == "":
        return mklist([rawscalar(c) for c in text(string)])
    if isinstance(sep, P.Pattern):
        parts = sep.asSeparator().split(text(string))
    else:
        parts = text(string).split(text(sep))
    return mklist([P.Scalar(x) for x in parts])


@contract(XS + "REPLACE", C19, dict(self=PROG, lhs=PIP, old=PIP, new=PIP), result=PIP,
          cases=dict(lhs=[["list"], ["range"], ["scalar"], ["nil", "pattern", "block"]],
                     old=[["list"], ["range"], ["scalar", "pattern"], ["nil", "block"]],
                     new=[["list", "range"], ["scalar", "pattern", "nil"], ["block"]]), **RXCALL)
def replace(self, lhs, old, new):
    lhs = mklist([x for x in lhs]) if isinstance(lhs, P.Range) else lhs
    old = mklist([x for x in old]) if isinstance(old, P.Range) else old
    new = mklist([x for x in new]) if isinstance(new, P.Range) else new
    if isinstance(old, P.Scalar) and isinstance(new, (P.Pattern, P.Block)):
        old = pattern_of(self, old)
    if not isinstance(lhs, P.PipIterable) or isinstance(old, (P.Block, P.Nil)):
        return P.nil
    if isinstance(lhs, P.List):
        return mklist([self.REPLACE(x, old, new) for x in items(lhs)])
    if isinstance(old, P.List):
        out = lhs
        if isinstance(new, P.List):
            for x, y in zip(items(old), items(new)):
                out = self.REPLACE(out, x, y)
            for x in items(old)[len(items(new)):]:
                out = self.REPLACE(out, x, P.nil)
        else:
            for x in items(old):
                out = self.REPLACE(out, x, new)
        return out
    if isinstance(old, P.Scalar):
        return mkscalar(text(lhs).replace(text(old), "" if new is P.nil else str(new)))
    if isinstance(new, P.Pattern):
        by = new.asReplacement()
    elif new is P.nil:
        by = ""
    elif isinstance(new, P.Block):
        out = ""
        pos = 0
        for m in old.asRegex().finditer(text(lhs)):
            out += text(lhs)[pos:m.start()] + str(self.functionCall(new, self.assignRegexVars(m)))
            pos = m.end()
        return mkscalar(out + text(lhs)[pos:])
    else:
        by = str(new).replace("\\", "\\\\")
    return mkscalar(old.asRegex().sub(by, text(lhs)))


def all_sources(rng, n):
    """Every source text over an alphabet that has all the special
    characters, up to a length; half with the caches already filled."""
    import itertools
    for pre, chars, sizes in (("", "\\&1a0", range(6 if n < 5000 else 7)), ("(a)", "\\1&", range(8))):
        for cs in itertools.chain.from_iterable(itertools.product(chars, repeat=size) for size in sizes):
            p = P.Pattern(pre + "".join(cs), rng.choice([0, 0, 2, 16]))
            if rng.random() < .5:
                try:
                    p.asSeparator()
                    p.asRegex()
                except re.error:
                    pass
            yield [p]


def renumbered(s):
    """s with every unescaped back-reference \\1 to \\99 increased by one."""
    out, i = "", 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i]
            i += 1
            continue
        j = i
        while j < len(s) and s[j] == "\\":
            j += 1
        out += "\\" * (j - i)
        if (j - i) % 2 == 1 and j < len(s) and s[j] in "123456789":
            k = j + 1
            if k < len(s) and s[k].isdecimal():
                k += 1
            out += str(int(s[j:k]) + 1)
            j = k
        i = j
    return out


@contract("ptypes.Pattern.asRegex", C19, dict(self=PATTERN), raises=(re.error,), bounded=True, native_args=all_sources)
def as_regex(self):
    return re.compile("(?P<all>" + renumbered(self._raw) + ")", self._flags)


@contract("ptypes.Pattern.asSeparator", C19, dict(self=PATTERN), raises=(re.error,), bounded=True, native_args=all_sources)
def as_separator(self):
    return re.compile(self._raw, self._flags)


@contract("ptypes.Pattern.asReplacement", C19, dict(self=PATTERN), bounded=True, native_args=all_sources)
def as_replacement(self):
    s = renumbered(self._raw)
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            j = i
            while j < len(s) and s[j] == "\\":
                j += 1
            n = j - i
            if j < len(s) and s[j] == "&" and n % 2 == 1:
                out += "\\" * (n - 1) + "&"
                j += 1
            else:
                out += "\\" * n
            i = j
        elif s[i] == "&":
            out += "\\g<all>"
            i += 1
        else:
            out += s[i]
            i += 1
    return out


@contract("ptypes.Pattern.repeat", C19, dict(self=PATTERN, count=DYN("int", "scalar", "nil")), raises=(TypeError,))
def prepeat(self, count):
    if not isinstance(count, int):
        raise TypeError
    return P.Pattern(self._raw + "{" + str(count) + "}", self._flags)


@contract("ptypes.Pattern.isEmpty", C19, dict(self=PATTERN))
def pisempty(self):
    return self._raw == ""


@contract("ptypes.Pattern.__iter__", C19, dict(self=PATTERN))
def piter(self):
    return iter([P.Scalar(c) for c in self._raw])


@contract(XS + "AT#value", C19 + ["C02"], dict(self=PROG, lhs=PIP, rhs=OPT_PIP), result=PIP, callee=True,
          cases=dict(lhs=[["scalar", "list"], ["range"], ["nil", "pattern", "block"]],
                     rhs=[["list"], ["range"], ["scalar", "none"], ["pattern"], ["nil", "block"]]), **RXI)
def at(self, lhs, rhs):
    if rhs is P.nil or isinstance(rhs, P.Block):
        return P.nil
    if isinstance(rhs, P.Pattern):
        if listlike(lhs):
            return mklist([self.AT(x, rhs) for x in lhs])
        if not isinstance(lhs, P.Scalar):
            return P.nil
        out = []
        for m in rhs.asRegex().finditer(text(lhs)):
            out.append(self.assignRegexVars(m)[0])
        return mklist(out)
    if not isinstance(lhs, P.PipIterable):
        return P.nil
    if isinstance(rhs, P.List):
        return mklist([self.AT(lhs, x) for x in rhs])
    if isempty(lhs):
        return P.nil
    try:
        return lhs[0 if rhs is None else int(rhs) if isinstance(rhs, P.Scalar) else rhs.toSlice()]
    except IndexError:
        return P.nil


def isempty(v):
    if isinstance(v, P.Scalar):
        return text(v) == ""
    if isinstance(v, P.List):
        return len(items(v)) == 0
    return hi(v) is not None and hi(v) <= (lo(v) or 0)


@contract(XS + "AT#lval", ["C05"], dict(self=PROG, lhs=VAR(PyListOf(INDEX)), rhs=OPT_PIP),
          cases=dict(rhs=[["none", "scalar"], ["range"], ["list"], ["pattern"], ["nil", "block"]]),
          effects=("getRval", "assignRegexVars"), raises=(re.error, IndexError), may_diverge=True, opaque_calls=("AT",))
def at_lval(self, lhs, rhs):
    """Indexing a variable gives a place in it; indexing by several indices
    or a pattern gives a value."""
    if rhs is None or isinstance(rhs, (P.Scalar, P.Range)):
        r = X.Lval(lhs.base)
        r.sliceList = list(lhs.sliceList) + [0 if rhs is None else int(rhs) if isinstance(rhs, P.Scalar) else rhs.toSlice()]
        r.evaluated = lhs.evaluated
        return r
    if isinstance(rhs, (P.List, P.Pattern)):
        return at(self, self.getRval(lhs), rhs)
    return P.nil


@contract(XS + "AT#lvals", ["C05"], dict(self=PROG, lhs=VAR(PyListOf(INDEX, maxlen=0), base=LVALS), rhs=SCALAR))
def at_lvals(self, lhs, rhs):
    """Indexing a list of variables gives one of them."""
    n = len(items(lhs.base))
    if n == 0:
        return P.nil
    return items(lhs.base)[int(rhs) % n]


# ---- the match variables -----------------------------------------------------------
def some_matches(rng, n):
    """Interpreter states and matches of (translated) patterns in texts."""
    from pyvc import gen as G
    raws = ["a", "(a)(b)?", "(?:a|(b))c*", "b+", "", "(a|b)(c)?(d)?", "x?", "((((((((((a))))))))))", "(.)(.)", "(?P<n>a)b"]
    texts = ["abc", "aab", "b", "xaby", "bcacbd", "", "aaaa", "a\nb"]
    for i in range(n):
        p = P.Pattern(rng.choice(raws))
        ms = list(p.asRegex().finditer(rng.choice(texts)))
        if ms:
            yield G.scoped_state(rng.randrange(10 ** 6)), rng.choice(ms)


@contract(XS + "assignRegexVars#variables", C19, dict(self=SCOPES, matchObj=PIP), bounded=True, native_args=some_matches)
def assign_regex_vars(self, matchObj):
    """$0 to $9 are the match and its groups (nil where there is none or it
    took no part), $$ the list of all groups, $( and $) where the match
    starts and ends, $[ and $] the same for the groups, $` and $' the text
    before and after it."""
    m = matchObj
    val = lambda t: P.nil if t is None else mkscalar(t)
    gs = [val(m.group(i)) for i in range(1, len(m.regs))]
    v = self.vars
    for i in range(10):
        v["$" + str(i)] = gs[i] if i < len(gs) else P.nil
    v["$$"] = mklist(gs[1:])
    v["$("] = mkscalar(m.start())
    v["$)"] = mkscalar(m.end())
    v["$["] = mklist([mkscalar(a) for a, b in m.regs[2:]])
    v["$]"] = mklist([mkscalar(b) for a, b in m.regs[2:]])
    v["$`"] = mkscalar(m.string[:m.start()])
    v["$'"] = mkscalar(m.string[m.end():])
    return gs
