"""C17: reading a program.  The scanner and the parser are compared with a
reference scanner (character by character) and a reference parser
(precedence climbing) - bounded stand-ins - and the operator and command
tables with the documented ones, entry by entry."""
import itertools
import json
import os
import random
import re
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
from pyvc.programs import fact

C17 = ["C17"]
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "optable.json")))


def duplicate(op):
    r = object.__new__(type(op))
    r.__dict__.update(op.__dict__)
    return r


# the operators as loaded (the code may not change them)
ARITY = {a: {t: duplicate(o) for t, o in d.items()} for a, d in OPS.opsByArity.items()}
PAREN, LIST, BLOCK, SEND, CHAIN = [duplicate(o) for o in (OPS.paren, OPS.enlist, OPS.block, OPS.send, OPS.chain)]


def table_intact():
    real = [OPS.paren, OPS.enlist, OPS.block, OPS.send, OPS.chain] + [o for a in (1, 2, 3) for o in OPS.opsByArity[a].values()]
    mine = [PAREN, LIST, BLOCK, SEND, CHAIN] + [o for a in (1, 2, 3) for o in ARITY[a].values()]
    return len(real) == len(mine) and all(same(x, y) for x, y in zip(real, mine))


class Text(Dom):
    """Any program text."""

    def enum(self):
        return []

    def rand(self, rng):
        return program_text(rng)


class Toks(Dom):
    """A token list ending with None."""
    mutable = True

    def enum(self):
        return []

    def rand(self, rng):
        return random_tokens(rng)


# ---- scanner -------------------------------------------------------------------
SPACE = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def run_of(code, i, chars):
    j = i
    while j < len(code) and code[j] in chars:
        j += 1
    return j


UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = "abcdefghijklmnopqrstuvwxyz"
DIGITS = "0123456789"


def delimited(code, i, start, end, escapes, quoted=False):
    """End of a literal whose body starts at i, or None."""
    while i < len(code):
        if code.startswith(end, i):
            return i + len(end)
        if escapes and code[i] == "\\":
            # an escaped character (of a pattern: not a newline; of an
            # escaped string: \" ends the string)
            if i + 1 >= len(code) or not quoted and code[i + 1] == "\n":
                return None
            i += 2
        else:
            i += 1
    return None


def escaped_end(code, i):
    # \" ends the string unless its backslash is itself escaped; with no end
    # that way, a backslash may escape nothing
    return delimited(code, i, '\\"', '\\"', True, True)


def word_end(code, i):
    """End of the word token at i (name, symbol or operator), or None."""
    c = code[i]
    nxt = code[i + 1] if i + 1 < len(code) else ""
    if c in UPPER:
        return run_of(code, i, UPPER)
    if c in LOWER and c != "j" or c == "_":
        return i + 1
    if c == "$" and nxt:
        if nxt in "[]()$`'" + DIGITS:
            return i + 2
        if nxt in LOWER:
            return run_of(code, i + 2, LOWER + DIGITS + "_")
        if nxt == "_":
            return min(run_of(code, i + 1, "_"), i + 4)
    if c == "\\" and nxt and nxt in "abcdefg":
        return i + 2
    return None


def line_end(code, i):
    j = code.find("\n", i)
    return len(code) if j < 0 else j


def ref_tokenize(code):
    T = X.tokens
    ops = {r[1] for r in TABLE["operators"]}
    cmds = {r[0] for r in TABLE["commands"]}
    out = []
    code = "\n" + code
    i = 0
    while i < len(code):
        c = code[i]
        # a comment: a line starting with ; or the rest after two spaces
        if c in SPACE:
            j = run_of(code, i, SPACE)
            if "\n" in code[i:j] and code[j:j + 1] == ";":
                j = line_end(code, j)
            elif code[i:i + 2] == "  ":
                j = line_end(code, i)
            i = j
            continue
        if code.startswith("{;", i):
            j = code.find(";}", i + 2)
            if j < 0:
                raise ERR.IncompleteSyntax()
            i = j + 2
            continue
        nxt = code[i + 1:i + 2]
        j = word_end(code, i)
        if j is not None and c in UPPER:
            # words have two letters; an odd run starts with a single one
            if code[i:j] == "PIP":
                w = "PIP"
            else:
                w = code[i:i + 2] if (j - i) % 2 == 0 else c
            i += len(w)
            if w == "EI":
                w, i = "EL", i - 1
            out.append(T.Operator(w) if w in ops else T.Command(w) if w in cmds else
                       T.Symbol(w) if w == "EL" else T.Name(w))
            continue
        if j is not None:
            out.append(T.Name(code[i:j]))
            i = j
            continue
        kind = None
        if c == '"':
            kind, j = T.String, delimited(code, i + 1, '"', '"', False)
        elif c == "`":
            kind, j = T.Pattern, delimited(code, i + 1, "`", "`", True)
        elif c == "'":
            kind, j = T.Char, i + 2 if nxt else None
        elif code.startswith('\\"', i):
            kind, j = T.EscapedString, escaped_end(code, i + 2)
        if kind is not None:
            if j is None:
                raise ERR.IncompleteSyntax()
            out.append(kind(code[i:j]))
            i = j
            continue
        if c in DIGITS:
            j = run_of(code, i, DIGITS)
            if code[j:j + 1] == "." and code[j + 1:j + 2] and code[j + 1] in DIGITS:
                j = run_of(code, j + 1, DIGITS)
            out.append(T.Number(code[i:j]))
            i = j
            continue
        if c in "[](){};$":
            out.append(T.Symbol(c))
            i += 1
            continue
        if code.startswith("\\$", i):
            out.append(T.Symbol("\\$"))
            i += 2
            continue
        for n in (3, 2, 1):
            if code[i:i + n] in ops and len(code[i:i + n]) == n:
                out.append(T.Operator(code[i:i + n]))
                i += n
                break
        else:
            i += 1           # not part of any token: ignored
    return out


PIECES = ["a", "b", "x", "_", "j", "i", "A", "B", "E", "I", "EI", "EL", "PIP", "P", "PI", "F", "W", "AB", "12", "3.5", "1.", ".5",
          '"s"', '"', "`p`", "`", "\\`", "'", "'c", '\\"', '\\"e\\"', "\\\\", "\\", "$", "$$", "$0", "$a1_", "$_", "$____", "\\$",
          "\\a", "\\h", "{", "}", "(", ")", "[", "]", ";", "{;", ";}", " ", "  ", "\n", "\n;", " \n ;", ":", "::", "*", "**", "@", "@@",
          "<", ">", "=", "<=", "<|", "|>", "||", "|", "!", "!=", "~", "?", "\\?", "\\&", "#", "#<", "^", "^@", "@*", "+", "-", "/", "//",
          ",", "\\,", ".", "%", "\x00", "\u00e9", "#!"]


def program_text(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
    if rng.random() < .7:
        return "".join(rng.choice(PIECES) for _ in range(n))
    ops = [r[1] for r in TABLE["operators"]]
    return "".join(rng.choice(PIECES + ops) for _ in range(n))


@contract("scanning.tokenize", C17, dict(code=Text()), bounded=True)
def tokenize(code):
    return ref_tokenize(code)


@contract("scanning.scan", C17, dict(code=Text()), bounded=True)
def scan(code):
    return ref_tokenize(code + "\n") + [None]


# ---- parser --------------------------------------------------------------------
class Parser:
    def __init__(self, toks):
        self.t = toks

    def kind(self, name):
        return self.t[0] is not None and type(self.t[0]) is getattr(X.tokens, name)

    def literal(self):
        return isinstance(self.t[0], X.tokens.Literal)

    def at(self, *texts):
        return self.t[0] is not None and self.t[0]._text in texts and not self.literal()

    def next(self):
        return self.t.pop(0)

    def bad(self):
        raise (ERR.IncompleteSyntax if self.t[0] is None else ERR.BadSyntax)()

    def statements(self):
        out = []
        while self.t[0] is not None and not self.at("}"):
            out.append(self.statement())
        return out

    def optional(self, text):
        if self.at(text):
            self.next()

    def statement(self):
        if self.t[0] is None:
            self.bad()
        if self.kind("Command"):
            cmd = OPS.commands[self.next()]
            out = [cmd]
            for arg in dict((r[0], r[2]) for r in TABLE["commands"])[cmd._text]:
                if arg == "CODE":
                    out.append(self.body())
                elif arg == "LOOPVAR":
                    out.append(self.names())
                elif arg == "ELSE":
                    if self.at("EL"):
                        self.next()
                        out.append(self.body())
                    else:
                        out.append([])
                else:
                    out.append(self.expression())
        else:
            out = self.expression()
        self.optional(";")
        return out

    def names(self):
        if self.kind("Name"):
            out = self.next()
        elif self.at("["):
            self.next()
            out = [LIST]
            while not self.at("]"):
                out.append(self.names())
            self.next()
            if len(out) == 1:
                raise ERR.BadSyntax()
        else:
            self.bad()
        self.optional(";")
        return out

    def body(self):
        if not self.at("{"):
            return [self.statement()]
        self.next()
        out = self.statements()
        if not self.at("}"):
            self.bad()
        self.next()
        return out

    def expression(self):
        out = self.climb(self.operand(), -1)
        self.optional(";")
        return out

    def peek(self):
        """(operator, binding strength, associativity, arity, assigned) of the next token or None."""
        if not self.kind("Operator"):
            return None
        w = self.t[0]._text
        for arity in (2, 3):
            if w in ARITY[arity]:
                op = ARITY[arity][w]
                if self.t[1] is not None and self.t[1]._text == ":" and not isinstance(self.t[1], X.tokens.Literal):
                    a = ARITY[2][":"]
                    return op, a.precedence, a.associativity, arity, True
                return op, op.precedence, op.associativity, arity, False
        return None

    def climb(self, left, low):
        """left followed by all operators binding at least as strongly as low."""
        while True:
            p = self.peek()
            if p is None or p[1] < low:
                return left
            op, prec, assoc, arity, assigned = p
            self.next()
            if assigned:
                self.next()
                op = duplicate(op)
                op.assign, op.precedence, op.associativity = True, prec, assoc
            middle = [self.expression()] if arity == 3 else []
            right = self.operand()
            while True:
                q = self.peek()
                if q is None or q[1] < prec or q[1] == prec and assoc != "R":
                    break
                right = self.climb(right, q[1])
            if assoc != "C":
                left = [op, left] + middle + [right]
            elif isinstance(left, list) and left[0]._text == "CHAIN":
                left = left + [op, right]
            else:
                left = [CHAIN, left, op, right]

    def operand(self):
        t = self.t[0]
        if t is None:
            self.bad()
        if self.kind("EscapedString"):
            return interpolated(self.next())
        if self.kind("Name") or self.literal():
            return self.next()
        if self.at("("):
            self.next()
            out = []
            while not self.at(")"):
                if self.t[0] is None:
                    self.bad()
                out.append(self.expression())
            self.next()
            return [SEND] + out if len(out) > 1 else [PAREN, out[0]] if out else X.tokens.Nil()
        if self.at("["):
            self.next()
            out = [LIST]
            while not self.at("]"):
                if self.t[0] is None:
                    self.bad()
                out.append(self.expression())
            self.next()
            return out
        if self.at("{"):
            return [BLOCK, self.body()]
        if self.at("$", "\\$"):
            meta = self.next()._text
            if self.t[0] is None or self.literal() or self.t[0]._text not in ARITY[2]:
                self.bad()
            op = duplicate(ARITY[2][self.next()])
            op.arity = 1
            if meta == "$":
                op.fold = True
            else:
                op.scan = True
        elif not self.literal() and t._text in ARITY[1]:
            op = ARITY[1][self.next()]
        else:
            self.bad()
        if self.at("*"):
            self.next()
            op = duplicate(op)
            op.map = True
        if self.at(":"):
            self.next()
            op = duplicate(op)
            op.assign, op.precedence = True, ARITY[2][":"].precedence
        return [op, self.climb(self.operand(), op.precedence + 1)]


def interpolated(token):
    """An escaped string with \\x for variables x: the strings and the
    variables' texts joined; an escaped backslash does not start a variable."""
    s = token._text[2:-2]
    parts, i = [""], 0
    while i < len(s):
        if s[i] != "\\" or i + 1 == len(s):
            parts[-1] += s[i]
            i += 1
        elif s[i + 1] in LOWER + "_":
            parts += [s[i + 1], ""]
            i += 2
        elif s[i + 1] in UPPER:
            n = 2 if i + 2 < len(s) and s[i + 2] in UPPER else 1
            parts += [s[i + 1:i + 1 + n], ""]
            i += 1 + n
        else:
            parts[-1] += s[i:i + 2]
            i += 2
    if len(parts) == 1:
        return token
    T = X.tokens
    out = [LIST]
    for k, p in enumerate(parts):
        out.append([ARITY[1]["ST"], T.Name(p)] if k % 2 else T.EscapedString('\\"' + p + '\\"'))
    return [PAREN, [ARITY[1]["J"], out]]


def random_tokens(rng):
    T = X.tokens
    names = [T.Name(x) for x in "abxy"]
    lits = [T.Number("1"), T.Number("2.5"), T.String('"s"'), T.Char("'c"), T.Pattern("`p`"), T.EscapedString('\\"e\\"'),
            T.EscapedString('\\"a\\bc\\XYZ\\\\n\\\\\\q"\\"'), T.String('"+"'), T.String('"("'), T.Char("'("), T.Nil()]
    un = [T.Operator(t) for t in OPS.opsByArity[1]]
    bi = [T.Operator(t) for t in OPS.opsByArity[2]]
    te = [T.Operator(t) for t in OPS.opsByArity[3]]
    out = []

    def expr(d):
        r = rng.random()
        if d <= 0 or r < .25:
            out.append(rng.choice(names + lits))
        elif r < .4:
            out.append(rng.choice(un))
            if rng.random() < .2:
                out.append(T.Operator("*"))
            if rng.random() < .2:
                out.append(T.Operator(":"))
            expr(d - 1)
        elif r < .47:
            out.append(T.Symbol(rng.choice(["$", "\\$"])))
            out.append(rng.choice(bi))
            if rng.random() < .3:
                out.append(T.Operator("*"))
            expr(d - 1)
        elif r < .8:
            expr(d - 1)
            out.append(rng.choice(bi))
            if rng.random() < .2:
                out.append(T.Operator(":"))
            expr(d - 1)
        elif r < .85:
            expr(d - 1)
            out.append(rng.choice(te))
            expr(d - 1)
            if rng.random() < .5:
                out.append(T.Symbol(";"))
            expr(d - 1)
        else:
            a, b = rng.choice(["()", "[]", "{}"])
            out.append(T.Symbol(a))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                stmt(d - 1) if a == "{" else expr(d - 1)
                if rng.random() < .5:
                    out.append(T.Symbol(";"))
            out.append(T.Symbol(b))

    def namelist(d):
        if d <= 0 or rng.random() < .5:
            out.append(rng.choice(names))
        else:
            out.append(T.Symbol("["))
            for _ in range(rng.choice([0, 1, 2, 2])):
                namelist(d - 1)
            out.append(T.Symbol("]"))
        if rng.random() < .2:
            out.append(T.Symbol(";"))

    def code(d):
        if rng.random() < .5:
            return stmt(d)
        out.append(T.Symbol("{"))
        for _ in range(rng.choice([0, 1, 2])):
            stmt(d)
        out.append(T.Symbol("}"))

    def stmt(d):
        if d <= 0 or rng.random() < .6:
            expr(d)
        else:
            t, _, args = rng.choice(TABLE["commands"])
            out.append(T.Command(t))
            for a in args:
                if a == "CODE":
                    code(d - 1)
                elif a == "LOOPVAR":
                    namelist(2)
                elif a == "ELSE":
                    if rng.random() < .5:
                        out.append(T.Symbol("EL"))
                        code(d - 1)
                else:
                    expr(d - 1)
        if rng.random() < .3:
            out.append(T.Symbol(";"))

    for _ in range(rng.choice([1, 1, 2, 3])):
        stmt(rng.choice([1, 2, 3, 4]))
    if rng.random() < .25 and out:
        every = names + lits + rng.sample(un, 3) + rng.sample(bi, 6) + te + [T.Symbol(s) for s in "[](){};$"] + \
            [T.Symbol("EL"), T.Symbol("\\$"), T.Command("I"), T.Command("F")]
        k = rng.randrange(len(out))
        r = rng.random()
        if r < .4:
            out[k] = rng.choice(every)
        elif r < .7:
            del out[k]
        elif r < .85:
            out.insert(k, rng.choice(every))
        else:
            del out[k:]
    return out[:60] + [None]


@contract("parsing.parse", C17, dict(tokenList=Toks()), bounded=True, post=lambda tokenList, tree: table_intact())
def parse(tokenList):
    return Parser(tokenList).statements()


# ---- the grammar, function by function ------------------------------------------
# The functions are specified in terms of each other, as in a grammar.
class Stream(StreamDom):
    """Token lists that may begin with what the function reads."""

    def make(self, rng):
        toks = random_tokens(rng)
        k = rng.choice([0, 0, 0, rng.randrange(len(toks)), rng.randrange(len(toks))])
        return toks[k:]


STREAM = Stream()
PARSED = DYN("name", "literal", "pylist")
PARSERS = ("parse", "parseStatement", "parseNameList", "parseBlock", "parseExpr", "parseOperand")


def reads(*but):
    return tuple(p for p in PARSERS if p not in but)


@contract("parsing.parse#grammar", C17, dict(tokenList=STREAM), effects=PARSERS, result=DYN("pylist"), raises=(ERR.FatalError,),
          may_diverge=True)
def parse_grammar(tokenList):
    out = []
    while not (tokenList[0] is None or tokenList[0] == "}"):
        out.append(X.parsing.parseStatement(tokenList))
    return out


@contract("parsing.parseBlock", C17, dict(tokenList=STREAM), effects=PARSERS, result=DYN("pylist"), raises=(ERR.FatalError,))
def parse_block(tokenList):
    if tokenList[0] != "{":
        return [X.parsing.parseStatement(tokenList)]
    tokenList.pop(0)
    out = X.parsing.parse(tokenList)
    if tokenList[0] is None:
        raise ERR.IncompleteSyntax()
    if tokenList[0] != "}":
        raise ERR.BadSyntax()
    tokenList.pop(0)
    return out


@contract("parsing.parseNameList", C17, dict(tokenList=STREAM), effects=PARSERS, result=DYN("name", "pylist"),
          raises=(ERR.FatalError,), may_diverge=True)
def parse_name_list(tokenList):
    if isinstance(tokenList[0], X.tokens.Name):
        out = tokenList.pop(0)
    elif tokenList[0] == "[":
        tokenList.pop(0)
        out = [OPS.enlist]
        empty = True
        while tokenList[0] != "]":
            out.append(X.parsing.parseNameList(tokenList))
            empty = False
        tokenList.pop(0)
        if empty:
            raise ERR.BadSyntax()
    elif tokenList[0] is None:
        raise ERR.IncompleteSyntax()
    else:
        raise ERR.BadSyntax()
    if tokenList[0] == ";":
        tokenList.pop(0)
    return out


@contract("parsing.parseStatement", C17, dict(tokenList=STREAM), effects=PARSERS, result=PARSED, raises=(ERR.FatalError,))
def parse_statement(tokenList):
    P = X.parsing
    if tokenList[0] is None:
        raise ERR.IncompleteSyntax()
    if isinstance(tokenList[0], X.tokens.Command):
        cmd = OPS.commands[tokenList.pop(0)]
        out = [cmd]
        for part in cmd.argtypes:
            if part == "CODE":
                out.append(P.parseBlock(tokenList))
            elif part == "LOOPVAR":
                out.append(P.parseNameList(tokenList))
            elif part != "ELSE":
                out.append(P.parseExpr(tokenList))
            elif tokenList[0] == "EL":
                tokenList.pop(0)
                out.append(P.parseBlock(tokenList))
            else:
                out.append([])
    else:
        out = P.parseExpr(tokenList)
    if tokenList[0] == ";":
        tokenList.pop(0)
    return out


@contract("parsing.parseOperand", C17, dict(tokenList=STREAM), effects=PARSERS, result=PARSED, raises=(ERR.FatalError,),
          may_diverge=True, requires=lambda tokenList: not isinstance(tokenList[0], X.tokens.EscapedString))
def parse_operand(tokenList):
    P, T = X.parsing, X.tokens
    t = tokenList[0]
    if isinstance(t, (T.Name, T.Literal)):
        return tokenList.pop(0)
    if t == "(":
        tokenList.pop(0)
        out = []
        while tokenList[0] != ")":
            if tokenList[0] is None:
                raise ERR.IncompleteSyntax()
            out.append(P.parseExpr(tokenList))
        tokenList.pop(0)
        if not out:
            return T.Nil()
        return [OPS.paren, out[0]] if len(out) == 1 else [OPS.send] + out
    if t == "[":
        tokenList.pop(0)
        out = [OPS.enlist]
        while tokenList[0] != "]":
            if tokenList[0] is None:
                raise ERR.IncompleteSyntax()
            out.append(P.parseExpr(tokenList))
        tokenList.pop(0)
        return out
    if t == "{":
        return [OPS.block, P.parseBlock(tokenList)]
    if t in OPS.opsByArity[1]:
        op = OPS.opsByArity[1][tokenList.pop(0)]
    elif t == "$" or t == "\\$":
        tokenList.pop(0)
        if tokenList[0] is None:
            raise ERR.IncompleteSyntax()
        if tokenList[0] not in OPS.opsByArity[2]:
            raise ERR.BadSyntax()
        op = OPS.opsByArity[2][tokenList.pop(0)].copy()
        op.arity = 1
        if t == "$":
            op.fold = True
        else:
            op.scan = True
    elif t is None:
        raise ERR.IncompleteSyntax()
    else:
        raise ERR.BadSyntax()
    if tokenList[0] == "*":
        tokenList.pop(0)
        op = op.copy()
        op.map = True
    if tokenList[0] == ":":
        tokenList.pop(0)
        op = op.copy()
        op.assign = True
        op.precedence = OPS.opsByArity[2][":"].precedence
    return [op, P.parseExpr(tokenList, op.precedence + 1)]


class Grow(GrowDom):
    def make(self, rng):
        op = rng.choice(list(OPS.opsByArity[2].values()) + list(OPS.opsByArity[3].values()) + [OPS.chain] * 5)
        while True:
            toks = random_tokens(rng)
            try:
                tree = X.parsing.parseExpr(toks)
            except ERR.FatalError:
                continue
            if isinstance(tree, list) != self.leaf:
                return [op, tree]


class Items(Dom):
    """Items added to a tree."""

    def sym(self, I, name):
        return I.new_plist(seq=z3.Const(name, L.VSeq))

    def enum(self):
        return [[X.tokens.Name("z")], [OPS.opsByArity[2]["<"], X.tokens.Name("z")]]

    def rand(self, rng):
        return rng.choice(self.enum())


def grown(bubble, exprTree, items):
    """What bubble's caller makes of its result."""
    tree, node = bubble(exprTree)
    node.extend(items)
    return tree


for leaf, variant in ((False, ""), (True, "#leaf")):
    @contract("parsing.bubble" + variant, C17, dict(exprTree=Grow(leaf), items=Items()), harness=grown)
    def bubble(exprTree, items):
        return graft_step(exprTree[0], exprTree[1], items)


@contract("parsing.parseExpr", C17, dict(tokenList=STREAM, minPrecedence=INT), effects=PARSERS, result=PARSED,
          raises=(ERR.FatalError,), may_diverge=True)
def parse_expr(tokenList, minPrecedence):
    P, T = X.parsing, X.tokens
    tree = P.parseOperand(tokenList)
    while isinstance(tokenList[0], T.Operator):
        t = tokenList[0]
        if t in OPS.opsByArity[2]:
            op = OPS.opsByArity[2][t]
        elif t in OPS.opsByArity[3]:
            op = OPS.opsByArity[3][t]
        else:
            break
        assign = OPS.opsByArity[2][":"]
        assigned = tokenList[1] == ":"
        if (assign.precedence if assigned else op.precedence) < minPrecedence:
            break
        tokenList.pop(0)
        if assigned:
            tokenList.pop(0)
            op = op.copy()
            op.assign, op.precedence, op.associativity = True, assign.precedence, assign.associativity
        # what comes between the left operand and the last one
        if op.associativity == "C":
            between = [op]
        elif op.arity == 3:
            between = [P.parseExpr(tokenList)]
        else:
            between = []
        operand = P.parseOperand(tokenList)
        tree = graft(OPS.chain if op.associativity == "C" else op, tree, between + [operand])
    if minPrecedence == -1 and tokenList[0] == ";":
        tokenList.pop(0)
    return tree


# ---- writing a program back ----------------------------------------------------------
def bare(tree):
    """A tree without its parentheses."""
    if isinstance(tree, list):
        if len(tree) == 2 and isinstance(tree[0], OPS.Operator) and tree[0]._text == "PAREN":
            return bare(tree[1])
        return [bare(x) for x in tree]
    return tree


def assigned_assign(tree):
    """Does the tree contain an assignment that is itself assigned (a : :b)?"""
    if isinstance(tree, list):
        return any(assigned_assign(x) for x in tree)
    return isinstance(tree, OPS.Operator) and tree.assign and tree._text in (":", "::")


class Tree_(Dom):
    """The tree of a random program."""

    def enum(self):
        return []

    def rand(self, rng):
        while True:
            toks = random_tokens(rng)
            try:
                tree = X.parsing.parse(toks)
            except ERR.FatalError:
                continue
            if tree and toks == [None] and not assigned_assign(tree):
                return tree


@contract("parsing.unparse#back", C17, dict(tree=Tree_(), statementSep=Const("")), bounded=True)
def unparse_back(tree, statementSep):
    return such(lambda text: same(bare(X.parsing.parse(X.scanning.scan(text))), bare(tree)))


# ---- the tables ------------------------------------------------------------------------
@fact("every operator has the documented function, arity, associativity, default and flags", C17 + ["C13"])
def operator_table():
    bad, n = [], 0
    for arity, text, function, level, assoc, default, flags in TABLE["operators"]:
        n += 1
        op = OPS.opsByArity[arity].get(text)
        if op is None:
            bad.append(f"there is no operator {text} of arity {arity}")
            continue
        got = (op._text, op.function, op.arity, op.associativity, op.default, op.flags, op.assign, op.map, op.fold, op.scan)
        if got != (text, function, arity, assoc, default, flags, False, False, False, False):
            bad.append(f"operator {text} of arity {arity} is {got}")
        if not callable(getattr(X.ProgramState, op.function, None)):
            bad.append(f"operator {text}: there is no {op.function}")
        if text not in OPS.operators:
            bad.append(f"the scanner does not know {text}")
    return bad, n


@fact("the operators bind in the documented order", C17)
def precedences():
    level = {(a, t): l for a, t, _, l, *_ in TABLE["operators"]}
    real = {k: OPS.opsByArity[k[0]][k[1]].precedence for k in level if k[1] in OPS.opsByArity[k[0]]}
    ks = sorted(real, key=lambda k: level[k])
    bad, n = [], 0
    for x, y in zip(ks, ks[1:]):
        n += 1
        if (level[x] == level[y]) != (real[x] == real[y]) or level[x] < level[y] and not real[x] < real[y]:
            bad.append(f"{x[1]} (arity {x[0]}) and {y[1]} (arity {y[0]}) bind in another order")
    top = max(real.values())
    for op in (OPS.paren, OPS.enlist, OPS.block, OPS.send):
        n += 1
        if op.precedence <= top:
            bad.append(f"{op._text} does not bind strongest")
    if OPS.chain.precedence != real.get((2, "<")) or OPS.chain.arity != 2 or OPS.chain.associativity != "C":
        bad.append("comparison chains do not bind like comparisons")
    return bad + ([] if table_intact() else ["reading programs changes the operator table"]), n + 1


@fact("every command has the documented function and parts", C17)
def command_table():
    bad = []
    for text, function, parts in TABLE["commands"]:
        c = OPS.commands.get(text)
        if c is None or (c._text, c.function, list(c.argtypes)) != (text, function, parts) or \
                not callable(getattr(X.ProgramState, function, None)):
            bad.append(f"command {text} is {c!r}")
    return bad, len(TABLE["commands"])


def compared(tokens):
    def run(f, t):
        try:
            return f(t), t
        except ERR.FatalError as e:
            return type(e).__name__, None
    a = run(X.parsing.parse, list(tokens) + [None])
    b = run(lambda t: Parser(t).statements(), list(tokens) + [None])
    return None if same(a, b) else f"{' '.join(map(str, tokens))} is read as {X.parsing.unparse(a[0]) if a[1] else a[0]}"


@fact("operators group by precedence and associativity: every pair of binary or ternary operators", C17)
def operator_pairs():
    T = X.tokens
    a, b, c, d, e = [T.Name(x) for x in "abcde"]
    two = [(T.Operator(t), 2) for t in OPS.opsByArity[2]] + [(T.Operator(t), 3) for t in OPS.opsByArity[3]]
    bad, n = [], 0
    for x, ax in two:
        for y, ay in two:
            n += 1
            r = compared([a, x, b] + [c] * (ax - 2) + [y, d] + [e] * (ay - 2))
            if r:
                bad.append(r)
    return bad, n


@fact("operators group by precedence and associativity: every unary operator before and after every binary one", C17)
def unary_pairs():
    T = X.tokens
    a, b, c = [T.Name(x) for x in "abc"]
    bad, n = [], 0
    for u in OPS.opsByArity[1]:
        u = T.Operator(u)
        for y in OPS.opsByArity[2]:
            y = T.Operator(y)
            n += 2
            for toks in ([u, a, y, b], [a, y, u, b, y, c]):
                r = compared(toks)
                if r:
                    bad.append(r)
    return bad, n


@fact("every token sequence of up to four representative tokens is read as by the reference parser", C17)
def short_programs():
    T = X.tokens
    some = [T.Name("a"), T.Number("1"), T.Operator("+"), T.Operator("**"), T.Operator("-"), T.Operator("!"), T.Operator("<"),
            T.Operator(":"), T.Operator("?"), T.Operator("*"), T.Operator("M")] + [T.Symbol(s) for s in "[](){};$"] + \
        [T.Symbol("EL"), T.Command("I"), T.Command("F"), T.Command("W")]
    bad, n = [], 0
    for k in range(1, 5):
        for toks in itertools.product(some, repeat=k):
            n += 1
            r = compared(toks)
            if r:
                bad.append(r)
                if len(bad) > 20:
                    return bad, n
    return bad, n
