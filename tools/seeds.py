seed("range-slice-past-end", "C01", "ptypes.py",
     "if start >= -length and stop <= length:", "if start >= -length and stop <= length + 1:",
     "slicing a finite Range with a stop exactly one past its length",
     "the extra cyclic item is silently dropped",
     """
r = Range(0, 4)
eq(r[slice(2, 5)], toPipType([S(2), S(3), S(0)]))
""")
seed("range-float-membership", "C01", "ptypes.py",
     "return lower <= item.toNumber() < self._upper", "return lower <= int(item) < self._upper",
     "a fractional number just below the lower bound of a Range whose lower bound is 0 or negative",
     "membership truncates the number before comparing it, so -0.5 counts as inside 0,3",
     """
eq(S("-0.5") in Range(0, 3), False)
eq(S("0.5") in Range(0, 3), True)
""")
seed("scalar-slice-many-laps", "C02", "ptypes.py",
     """            while start < 0:
                repString = self._value + repString
                start += length
                stop += length
            while stop > len(repString):
                repString += self._value
            return Scalar(repString[start:stop])""",
     """            while start < 0:
                repString = self._value + repString
                start += length
                stop += length
            if stop > len(repString):
                repString += self._value * (stop // len(repString))
            return Scalar(repString[start:stop])""",
     "a slice that wraps below zero (so the repeated text is longer than one lap) and also past the end",
     "with a negative start the number of extra laps is computed from the already lengthened text and comes out short",
     """
import itertools
for n in (1, 2, 3):
    s = "abc"[:n]
    for a in range(-12, 13):
        for b in range(-12, 13):
            st, sp = (a + n if a < 0 else a), (b + n if b < 0 else b)
            want = "".join(s[i % n] for i in range(st, sp))
            eq(str(S(s)[slice(a, b)]), want)
""")
seed("list-ctor-shares-items", "C03", "ptypes.py",
     "self._value = [item.copy() for item in value]",
     "self._value = [item.copy() if item else item for item in value]",
     "a list holding an empty list (or empty string) is copied and the inner value then modified in place",
     "false items are shared between the copy and the original",
     """
inner = List([])
l = List((inner, S(1)))
c = List(l)
inner.append(S(7))
eq(c, toPipType([List([]), S(1)]))
""")
seed("tonumber-trailing-space", "C04", "ptypes.py",
     "if m := pyFloatRgx.match(self._value.lstrip()):", "if m := pyFloatRgx.match(self._value.strip(' ')):",
     "a float written after a newline or tab", "leading white space other than blanks hides the fraction",
     """
eq(S("\\n2.5").toNumber(), 2.5)
""")
seed("mod-sign", "C06", "execution.py",
     "result = lhs.toNumber() % rhs.toNumber()", "import math\n                result = lhs.toNumber() % rhs.toNumber() if rhs.toNumber() > 0 else int(math.fmod(lhs.toNumber(), rhs.toNumber()))",
     "a negative divisor", "the remainder takes the sign of the dividend",
     """
eq(state().MOD(S(7), S(-3)), S(-2))
""")
seed("numgreater-first-difference", "C07", "execution.py",
     ("def NUMGREATER(", "elif self.NUMGREATER(j, i):"),
     "elif self.NUMGREATER(j, i) and not isinstance(j, List):",
     "two nested lists whose first differing items are lists in the opposite order to a later item or the lengths",
     "a first difference between nested lists is ignored when the left one is smaller",
     """
a = toPipType([toPipType([S(1)]), S(5), S(1)]); b = toPipType([toPipType([S(2)]), S(3)])
eq(state().NUMGREATER(a, b), S(0))
eq(state().NUMLESS(b, a), S(0))
""")
seed("weave-last-lap", "C09", "execution.py",
     ("Binary version: two iterables to be woven", "for i in range(max(len(iterable1), len(iterable2))):"),
     "for i in range(min(len(iterable1), len(iterable2)) + abs(len(iterable1) - len(iterable2)) % 7):",
     "two iterables whose lengths differ by 7 or more", "the left-over items of the longer iterable are cut off",
     """
eq(str(state().WEAVE(S("a"), S("bcdefghijk"))), "abcdefghijk")
""")
seed("filter-index-of-item", "C11", "execution.py",
     ("The unary version keeps indexes whose items are truthy",
      """            return List(Scalar(index)
                        for index, item in enumerate(iterable)
                        if self.functionCall(function, [Scalar(index), item]))"""),
     """            return List(Scalar(index)
                        for index, item in enumerate(iterable)
                        if self.functionCall(function, [iterable.index(item) if isinstance(iterable, List)
                                                        else Scalar(index), item]))""",
     "a list with repeated items and a function that uses the index argument",
     "for a repeated item the function is told the index of its first occurrence",
     """
st = state()
f = st.evaluate(parsing.parse(scanning.scan("{a=2}\\n"))[0])
eq(st.FILTERINDEXES(f, toPipType([S(5), S(6), S(5)])), toPipType([S(2)]))
""")
seed("foldr-order", "C12", "execution.py",
     ("def FOLDMETA(", "for val in iterable[-2::-1]:"), "for val in iterable[:-1]:",
     "folding at least three items with a right-associative operator", "the inner items are combined in reading order",
     """
st = state()
op = next(o for o in operators.opsByArity[2].values() if o.function == "POW").copy()
op.fold = True
eq(str(st.FOLDMETA(op, toPipType([S(2), S(3), S(2)]))), str(2 ** 9))
""")
seed("assign-op-not-copied", "C13", "execution.py",
     "normalOp = operator.copy()\n            normalOp.assign = False",
     "normalOp = operator\n            normalOp.assign = False",
     "a compute-and-assign expression that is evaluated a second time, in a loop or function",
     "the parsed operator itself loses its assignment, so later evaluations only compute",
     """
eq(run("i:0L3i+:2Pi"), "6\\n6\\n")
""")
seed("lambda-statement-order", "C13", "execution.py",
     """                            newStatements.extend(arg.getStatements())""",
     """                            newStatements[:0] = arg.getStatements()""",
     "a lambda built from two functions that both contain statements",
     "the statements of the right function run before those of the left one",
     """
eq(run('f:{O"L"a}+{O"R"b}P(f 3 4)').replace("\\n", ""), "LR77")
""")
seed("loop-count-exponent", "C14", "execution.py",
     ("def LOOP(", "count = int(count)"), "count = int(count.toNumber())",
     "a loop count written with a fraction and an exponent", "the exponent is applied before truncating",
     """
eq(run('L"1.5e+1"O"x"'), "x")
""")
seed("pick-negative-from-range", "C10", "execution.py",
     ("def PICK(", "                if rangeLength > 0:\n                    index %= rangeLength\n"),
     "                if rangeLength > 0:\n                    if index >= rangeLength:\n                        index %= rangeLength\n",
     "picking with index -1 from a variable holding a finite Range",
     "the variable is left holding all items, most of them twice",
     """
eq(run('l:,5 x:l PK -1 P x P l "."').replace("\\n", ""), "40123.")
""")
seed("pop-open-range-lower", "C10", "execution.py",
     ("def POP(", "                iterVal = Range(lower + 1, nil)\n            item"),
     "                iterVal = Range(lower + 1 if lower else None, nil)\n            item",
     "popping an unbounded Range that starts at zero, and then looking at the variable",
     "the variable still starts at zero", """
eq(run('l:0,() P(POl) P(POl) P(POl) "."').replace("\\n", ""), "012.")
""")
seed("history-third-slot", "C15", "execution.py",
     """                self.assign(Lval("$___"), self.getRval(Lval("$__")))
            self.assign(Lval("$__"), self.getRval(Lval("$_")))""",
     """                self.assign(Lval("$__"), self.getRval(Lval("$_")))
                self.assign(Lval("$___"), self.getRval(Lval("$__")))
            else:
                self.assign(Lval("$__"), self.getRval(Lval("$_")))""",
     "a function with at least three expression statements that looks at the third-last value",
     "the third-last value is lost: the slot holds the second-last one", """
eq(run('f:{11;22;33;$___}(f 1)'), "11\\n")
""")
seed("chain-reevaluates-middle", "C15", "execution.py",
     "compTree = [chain[i], chain[i-1], chain[i+1]]", "compTree = [chain[i], chain[i-1 if i < 4 else i-3], chain[i+1]]",
     "a comparison chain of at least four operands", "the third comparison uses the second operand again as its left side",
     """
eq(run('1<5<7<6'), "0\\n")
""")

seed("assign-slice-zero-stop", "C05", "ptypes.py",
     "            index %= len(self._value)\n        self._value.__setitem__(index, item)",
     "            index %= len(self._value)\n        elif not index.stop:\n            index = slice(index.start, None)\n        self._value.__setitem__(index, item)",
     "assigning to a slice of a list that ends at 0 (an empty slice at the front)", "the whole list is replaced instead of nothing", """
l = toPipType([S(1), S(2), S(3)])
l[slice(0, 0)] = toPipType([S(7)])
eq(l, toPipType([S(7), S(1), S(2), S(3)]))
""")
seed("destructure-keeps-old", "C05", "execution.py",
     "                    self.assign(lvalItem, nil)", "                    break",
     "destructuring a list into more variables than it has items when the last ones already had values",
     "variables without a corresponding item keep their old value instead of becoming nil", """
eq(run('x:5y:6z:7 [x y z]:[1] Oy Oz'), "")
""")
seed("local-history-deep", "C05", "execution.py",
     'r"\\$_+", varName)', 'r"\\$_{1,2}", varName)',
     "the third-last history variable $___ in a function called by another one",
     "$___ is global, so a called function sees and overwrites the caller's value", """
st = state()
L = execution.Lval
st.assign(L("$___"), S(1))
st.openScope(None, [])
eq(st.getRval(L("$___")), nil)
st.closeScope()
eq(st.getRval(L("$___")), S(1))
""")

seed("join-nested-no-separator", "C18", "execution.py",
     ("    def JOIN(self, iterable, sep=None):", "                    item = self.JOIN(item, sep)"),
     "                    item = self.JOIN(item, sep if len(item) < 4 else None)",
     "joining a list that contains a list of at least four items", "the items of the inner list are joined without the separator",
     """
eq(run('[1;[2;3;4;5]]J\",\"'), "1,2,3,4,5\\n")
""")
seed("trim-range-lower-missing", "C18", "execution.py",
     ("    def TRIM(self, string, extra=None):", "            front = extra.getLower() or 0"),
     "            front = extra.getLower() or 1",
     "trimming by a Range whose lower bound is 0 or absent", "a character is removed from the front", """
eq(run('\"abcdef\"TM0,2'), "abcd\\n")
""")
seed("replace-leftover-old", "C19", "execution.py",
     "                for eachOld in old[len(new):]:", "                for eachOld in old[len(new) or 1:]:",
     "replacing a list of strings by an empty list", "the first of the old strings is not deleted", """
eq(run('\"abcab\"R[\"a\"\"c\"][]'), "bb\\n")
""")
seed("regex-even-backslashes", "C19", "ptypes.py",
     '            pyRegex = re.sub(r"(?<!\\\\)((?:\\\\{2})*)\\\\([1-9]\\d?)",', '            pyRegex = re.sub(r"(?<!\\\\)((?:\\\\{2})?)\\\\([1-9]\\d?)",',
     "a pattern with a back-reference after two escaped backslashes", "the back-reference is not renumbered, so it refers to the whole match",
     """
p = pt.Pattern(r"(a)\\\\\\\\\\1")
m = p.asRegex().search("a\\\\\\\\a")
eq(m is not None, True)
""")
seed("mapregex-stale-groups", "C19", "execution.py",
     ("    def MAPREGEX(", """            for matchObj in matches:
                groups = self.assignRegexVars(matchObj)
                result.append(self.functionCall(lhs, groups))"""),
     """            allGroups = [self.assignRegexVars(matchObj)
                         for matchObj in matches]
            for groups in allGroups:
                result.append(self.functionCall(lhs, groups))""",
     "a mapped function that uses the match variables $0, $1, ... and not its arguments, with at least two matches",
     "all calls see the variables of the last match", """
eq(run('{$0.1}MR`a|b`"ab"'), "a1b1\\n")
""")
seed("findall-skips-overlap", "C20", "execution.py",
     "                    index = iterable.index(item, index + 1)",
     "                    index = iterable.index(\n                        item,\n                        index + (len(item) if len(result) > 1 else 1))",
     "a string of at least two characters with three overlapping occurrences in a string", "the third, overlapping occurrence is not found", """
eq(run('\"aaaa\"@*\"aa\"'), "012\\n")
""")
seed("unique-set-of-text", "C20", "execution.py",
     ("    def UNIQUE(self, iterable):", "                if item not in previousItems:\n                    result.append(item)\n                    previousItems.add(item)"),
     "                key = str(item) if isinstance(item, List) else item\n                if key not in previousItems:\n                    result.append(item)\n                    previousItems.add(key)",
     "two different lists whose items joined without separator read the same", "the second one is taken for a duplicate", """
L = pt.List
a, b = L([S(1), S(23)]), L([S(12), S(3)])
eq(state().UNIQUE(L([a, b])), L([a, b]))
""")
seed("descending-reverses-ties", "C21", "execution.py",
     ("    def DESCENDINGKEYED(", "return List(sorted(iterable, key=pyKey, reverse=True))"),
     "return List(reversed(sorted(iterable, key=pyKey)))",
     "a descending sort by a key function with two items that have equal keys", "the items with equal keys come out in reverse order", """
eq(run('{#a}DK["b";"cc";"a"]'), "ccba\\n")
""")
seed("min-last-of-equals", "C21", "execution.py",
     ("    def MIN(", "return min(iterable, key=lambda x:x.toNumber())"),
     "return min(reversed(list(iterable)),\n                           key=lambda x:x.toNumber())",
     "the minimum of a collection in which two different items have the least numeric value, such as 1 and 1.0", "the last of them is given", """
eq(repr(state().MIN(pt.List([S("2"), S("1.0"), S("1")]))), repr(S("1.0")))
""")
seed("lines-of-deep-lists", "C16", "ptypes.py",
     """            return "\\n".join(i.joined(" ") if isinstance(i, List) else str(i)
                             for i in self._value)""",
     """            return "\\n".join(" ".join(str(j) for j in i)
                             if isinstance(i, List) else str(i)
                             for i in self._value)""",
     "the list format S and a list nested at least three deep", "the innermost lists are written with newlines between their items, not spaces", """
pt.List.outFormat = "S"
L = pt.List
eq(str(L([L([L([S(1), S(2)]), S(3)])])), "1 2 3")
""")
seed("repr-quote-backslash", "C16", "ptypes.py",
     """return r'\\"' + self._value.replace("\\\\", r"\\\\") + r'\\"'""",
     """return r'\\"' + self._value + r'\\"'""",
     "the source form of a string with both a double quote and a backslash", "reading it back drops or reinterprets the backslash", """
q, b = chr(34), chr(92)
eq(repr(S("a" + q + b)), b + q + "a" + q + b + b + b + q)
""")
seed("todigits-float-division", "C08", "execution.py",
     "                digit = number % base\n                number //= base\n                result.insert(0, Scalar(sign * digit))",
     "                digit = number % base\n                number = int(number / base)\n                result.insert(0, Scalar(sign * digit))",
     "an integer of more than 53 bits", "the leading digits are wrong", """
n = 3 ** 60
eq(str(state().FROMDIGITS(state().TODIGITS(S(n), S(10)), S(10))), str(n))
""")
seed("frombase-underscore", "C08", "execution.py",
     'result = int(str(number).replace("_", " "), base)', "result = int(str(number), base)",
     "digits with an underscore between them", "text that is not a number of the base is read as one", """
eq(state().FROMBASE(S("1_0"), S(10)), nil)
""")
seed("zipdefault-false-default", "C09", "execution.py",
     ("    def ZIPDEFAULT(self, lists, default=None):", "if default is None:"), "if not default:",
     "a default that counts as false, such as 0 or an empty list", "missing items become the empty string instead", """
L = pt.List
eq(repr(state().ZIPDEFAULT(L([L([S(1), S(2)]), L([S(3)])]), S(0))), repr(L([L([S(1), S(3)]), L([S(2), S(0)])])))
""")
seed("unary-assign-sticks", "C17", "parsing.py",
     ("        # Check for the * and : meta-operators", """        if tokenList[0] == ":":
            # Turn this into a compute-and-assign operation
            tokenList.pop(0)
            op = op.copy()
"""), """        if tokenList[0] == ":":
            # Turn this into a compute-and-assign operation
            tokenList.pop(0)
            if tokenList[0] != "(":
                op = op.copy()
""",
     "a compute-and-assign unary operator directly followed by a parenthesis, and a later use of the same operator", "every later use of the operator assigns as well", """
eq(run("x:3;y:4;-:(x);P-y;Py;()"), "-4\\n4\\n")
""")
seed("block-comment-greedy", "C17", "scanning.py",
     "blockCommentRgx = re.compile(r'\\{;.*?;\\}', re.DOTALL)", "blockCommentRgx = re.compile(r'\\{;.*;\\}', re.DOTALL)",
     "two block comments in one program", "the code between them is taken for comment", """
eq(run("{;one;}P1 {;two;}P2;()"), "1\\n2\\n")
""")
seed("trim-flag", "C17", "operators.py",
     '     ("TM", "TRIM", "", RVALS | IN_LAMBDA | LIST_EACH),', '     ("TM", "TRIM", "", RVALS | IN_LAMBDA | RANGE_EACH),',
     "trimming with a Range as the amount", "the Range is expanded and a list of results comes back", """
eq(run("\\"abcdef\\"TM(1,3)"), "bc\\n")
""")
seed("else-semicolon", "C17", "parsing.py",
     """                statement.append(parseExpr(tokenList))
    else:""", """                statement.append(parseExpr(tokenList, 0))
    else:""",
     "a command whose condition ends with ; before a body that starts with an operator", "the ; after the condition is not taken off and the body cannot be parsed", """
eq(run("I 1;{O 5};()"), "5")
""")
seed("assign-binds-inside-unary", "C17", "parsing.py",
     ("        if tokenList[1] == \":\":", """            precedence = assignOp.precedence
        if precedence < minPrecedence:"""), """            precedence = max(assignOp.precedence, precedence)
        if precedence < minPrecedence:""",
     "a unary operator, its operand, and then a compute-and-assign operator that binds more strongly than the unary one", "the assignment is taken into the operand of the unary operator", """
import parsing, scanning
tree = parsing.parse(scanning.scan("-x@:2" + chr(10)))[0]
eq(tree[0].assign, True)
""")
seed("chain-keeps-assign", "C17", "parsing.py",
     """            op.precedence = assignOp.precedence
            op.associativity = assignOp.associativity
        # Add operator""", """            op.precedence = assignOp.precedence
            if op.associativity != "C":
                op.associativity = assignOp.associativity
        # Add operator""",
     "a comparison used as a compute-and-assign operator (x<:y)", "it is made part of a comparison chain and assigns nothing", """
eq(run("x:3;x<:5;x"), "1\\n")
""")
seed("bubble-wrong-associativity", "C17", "parsing.py",
     """                 or (nextOp.precedence == op.precedence
                     and op.associativity == 'R'))):""",
     """                 or (nextOp.precedence == op.precedence
                     and nextOp.arity == 2 and op.associativity == 'R'))):""",
     "a right-associative operator after a ternary operator of the same precedence", "the operators are grouped from the left", """
eq(run("1?2 0?3 4"), "2\\n")
""")
CLI = """
import subprocess, tempfile
def cli(*args, stdin="", files={}):
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        for f, text in files.items():
            open(os.path.join(d, f), "w").write(text)
        p = subprocess.run([sys.executable, os.path.join(here, "pip.py")] + list(args), input=stdin, capture_output=True, text=True, cwd=d, timeout=60,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    return p.returncode, p.stdout, bool(p.stderr)
def fn(code, argv):
    import pip
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        pip.run(code, argv)
    return out.getvalue()
"""
seed("cli-debug-overridden", "C23", "pip.py",
     "options.warnings = options.verbose = options.repr = True",
     """options.warnings = options.verbose = True
        options.repr = not (options.lines or options.space)""",
     "the debug flag together with -l or -s", "lists are not printed in repr form although -d implies -p", CLI + """
eq(cli("-d", "-l", "-e", "[1 2]")[1].endswith("\\n[1;2]\\n"), True)
""")
seed("cli-stdin-keeps-newline", "C23", "pip.py",
     """        if program:
            program = program[:-1]
    if options.verbose:""",
     """        program = program.rstrip()
    if options.verbose:""",
     "a program on standard input ending in white space that matters (an open character literal)", "the trailing white space of the program is lost", CLI + """
eq(cli("-i", stdin="1.' \\n"), (0, "1 \\n", False))
""")
seed("cli-args-share-quote", "C23", "pip.py",
     """                        quote = char
                        buffer = buffer or \"\"""",
     """                        quote = char""",
     "an argument string with an empty quoted part that is an argument by itself", "the empty argument is dropped", CLI + """
eq(fn("#g", "'' a"), "2\\n")
""")
seed("cli-exec-args-last", "C23", "pip.py",
     "            parsed_arg = arg_parse_tree[0]",
     "            parsed_arg = arg_parse_tree[-1]",
     "-x with an argument that is several expressions", "the last expression is used instead of the first", CLI + """
eq(fn("a", ["-x", "1;2"]), "1\\n")
""")
seed("cli-execute-empty", "C23", "pip.py",
     "if (code is None and options.execute is None and options.file is None",
     "if (code is None and not options.execute and options.file is None",
     "an empty program given with -e", "the empty program is ignored: a usage message is printed, or the first argument is swallowed", CLI + """
eq(cli("-e", ""), (0, "", False))
""")
seed("cli-recursion-status", "C23", "pip.py",
     """        state.executeProgram(parse_tree, program_args)
    except (FatalError, RuntimeError) as err:""",
     """        state.executeProgram(parse_tree, program_args)
    except (FatalError, RecursionError) as err:""",
     "a program whose execution raises a RuntimeError that is not a RecursionError", "the error leaves run() instead of being reported", CLI + """
import pip
def boom(self, *a):
    raise RuntimeError("x")
execution.ProgramState.executeProgram = boom
eq(fn("1", []), "")
""")
seed("cli-run-argv-only", "C23", "pip.py",
     """            if argv is None:
                # If code is given""",
     """            if not argv and code:
                # If code is given""",
     "run() called with an empty program and no arguments", "the arguments of the surrounding process are used", CLI + """
sys.argv = ["pip.py", "-V"]
eq(fn("", None), "")
""")
seed("repl-result-falsy", "C23", "pip.py",
     """                    if result is not None:
                        state.PRINT""",
     """                    if result:
                        state.PRINT""",
     "an expression in the interactive loop whose value is false (0, an empty string or list, nil)", "the result is neither printed nor recorded", CLI + """
eq(cli("-R", stdin="3-3\\n;q\\n")[1].split(">> ")[1], "0\\n")
""")
seed("repl-bad-after-incomplete", "C23", "pip.py",
     """                        code += input(".. ") + "\\n\"""",
     """                        code = code.strip() + input(".. ") + "\\n\"""",
     "a multi-line string literal typed at the interactive prompt", "the line break inside the literal is lost", CLI + """
eq(cli("-R", stdin='#"ab\\ncd"\\n;q\\n')[1].split(">> ")[1], ".. 5\\n")
""")
seed("cli-format-order", "C23", "pip.py",
     """                  "s" if options.space else
                  "S" if options.spacelines else
                  "n" if""",
     """                  "s" if options.space or options.spacelines else
                  "n" if""",
     "the list format -S with nested lists", "the items are joined by spaces on one line as with -s", CLI + """
eq(fn("[[1 2] [3 4]]", ["-S"]), "1 2\\n3 4\\n")
""")
seed("cli-verbose-bytes", "C23", "pip.py",
     'bytecount = len(program.encode("utf-8"))', 'bytecount = sum(1 + (ord(c) > 127) for c in program)',
     "-v with a program containing a character outside the first 2048 of Unicode", "the size in bytes is too small", CLI + """
eq(fn('"\u20ac"', ["-v"]).split(" ")[0], "5")
""")
seed("cli-exec-args-state", "C23", "pip.py",
     "program_args.append(state.evaluate(parsed_arg))", "program_args.append(ProgramState(listFormat, options.warnings).evaluate(parsed_arg))",
     "-x with an argument that uses a variable an earlier argument assigned", "each argument is evaluated in an interpreter of its own", CLI + """
eq(fn("b", ["-x", "y:5", "y+1"]), "6\\n")
""")
seed("format-survives-run", "C23", "execution.py",
     "        List.outFormat = listFormat\n", "        if listFormat is not None:\n            List.outFormat = listFormat\n",
     "a run with a list format followed by one without in the same process", "the second run still uses the list format of the first", CLI + """
eq(fn("[1 2]", ["-p"]), "[1;2]\\n")
eq(fn("[1 2]", []), "12\\n")
""")
seed("query-empty-at-end", "C05", "execution.py",
     """        except EOFError:
            line = nil
        return line""", """        except EOFError:
            line = SCALAR_EMPTY
        return line""",
     "reading q after the end of the input and looking at whether it is nil", "the empty string is given instead of nil", """
sys.stdin = io.StringIO("x\\n")
eq(run("q;q=()"), "1\\n")
""")
seed("random-seed-number", "C22", "execution.py",
     "random.seed(str(rhs))", "random.seed(rhs.toNumber())",
     "seeding with two strings that are not numbers", "all of them give the same random numbers", """
a, b = run('r:"abc";r'), run('r:"abd";r')
eq(a != b, True)
eq(run('r:"abc";r') == a, True)
""")
