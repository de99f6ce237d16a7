prop("C01", "A Range is an interval of integers",
     "A Range denotes exactly the integers from its lower bound (0 when absent) up to but excluding its upper bound (unbounded when absent): "
     "its length, emptiness, truth, finiteness, iteration order, membership and search results all agree with that set, and an unbounded Range is never treated as finite. "
     "Indexing a finite Range is cyclic and gives the same element as indexing the list of its integers; slicing a Range gives a value with exactly the elements the slice of that interval has.",
     ["inputs"], "every Range (any bounds, absent bounds, inverted bounds) and every index or slice",
     ["ptypes.py"], [("Range", "ptypes.py: class Range")],
     level_note="All Range methods under contract are proved for all bounds and indices.")
prop("C02", "Indexing and slicing of strings and lists is cyclic",
     "Indexing a non-empty string or list with any integer gives the item whose position is that integer modulo the length, and indexing an empty one is an index error. "
     "A slice whose negative bounds are first counted from the end yields the items at positions start..stop-1 each taken modulo the length (nothing when start is not below stop), and indexing by a list of indices yields the list of the individual results. The operators for the item at an index, the part left or right of an index, and the prefix or suffix of a length give exactly that item or slice (nil where there is no such item or the operands are unsuitable), a list of indices giving the list of the results.",
     ["inputs"], "every string, list, integer index, slice bound pair, Range and list of indices",
     ["ptypes.py", "execution.py"], [("Scalar.__getitem__, List.__getitem__", "ptypes.py"), ("AT, LEFTOF, RIGHTOF, PREFIX, SUFFIX", "execution.py")])
prop("C03", "Copies are equal and independent; equality is structural and type-strict",
     "Copying any value gives an equal value of the same type, and for a list one whose items are themselves copies. "
     "Two values are equal exactly when they have the same type and the same contents (text, items in order, bounds, expression and flags, statements and result), and equal values have equal hashes; "
     "list membership and the object-equality operator agree with that equality.",
     ["inputs"], "every pair of values of every type, nested to any depth",
     ["ptypes.py", "execution.py"], [("copy, __eq__, __hash__", "ptypes.py"), ("OBJEQUAL", "execution.py")])
prop("C04", "Numeric meaning, truth and text of values",
     "The number a string denotes is its longest numeric prefix after leading white space (a float if it has a fraction or signed exponent, otherwise an integer, 0 if there is none), and its integer meaning is its leading integer. "
     "Strings are false exactly when empty or a spelling of zero, nil is false, and every other value is false exactly when empty; functions, patterns and nil count as 0. "
     "A number stored as a string is written in decimal, without a zero fraction and with truth values as 0 and 1.",
     ["inputs"], "every string, number and value of every type",
     ["ptypes.py", "execution.py"], [("Scalar.__init__, toNumber, __int__, __bool__", "ptypes.py"), ("NOT", "execution.py")],
     level_note="Regular-expression matching and float formatting are uninterpreted functions shared by code and contract.")
prop("C06", "Arithmetic operators compute exactly, and a zero divisor gives nil",
     "Addition, subtraction, multiplication, division, floored division, modulo, negation, absolute value and difference, sign, square, doubling and the bitwise operators return the exact mathematical result on the operands' numbers (unbounded integers), and nil instead of an error when a divisor is zero or an operand has an unsupported type. "
     "Adding an integer to a Range or subtracting it shifts both bounds and keeps an unbounded Range unbounded. "
     "Halving (also rounded up), rounding down, up, toward zero and to the nearest multiple of a number are exact for integers of any size; powers, powers of ten, roots, logarithms, exponentials, trigonometric functions, conversions between degrees and radians, inversion and bit length give that function of the number, and nil where it is undefined.",
     ["inputs"], "every pair of operands of every type; integers of any size (results too large for a float excluded)",
     ["execution.py"], [("arithmetic operator methods", "execution.py: ADD, SUB, MUL, DIV, INTDIV, MOD, NEG, POS, ABS, ABSOLUTEDIFF, SIGN, SQUARE, DOUBLE, BITWISE*, HALVE*, FLOOR, CEIL, ROUND*, POW, POWEROFTEN, ROOT, SQRT, *LOG, EXPONENTIAL, SINE ... RADIANS, INVERT, BITLENGTH")],
     level_note="Float arithmetic is an uninterpreted function applied identically by code and contract.")
prop("C07", "Comparison operators are coherent on every pair of values",
     "The numeric comparisons order strings by number, Ranges by lower then upper bound (absent upper = infinite) and lists/Ranges by their first differing item and then by length; the string comparisons order strings by text and lists likewise; other operands compare only as equal or not. "
     "a<b always agrees with b>a, a<=b with b>=a, inequality is the negation of equality, and the three-way comparison is 1, -1 or 0 accordingly. "
     "Length comparisons compare lengths, with an unbounded Range longer than anything finite.",
     ["inputs"], "every pair of values, nested to any depth",
     ["execution.py"], [("NUM*, STR*, LEN* comparison methods", "execution.py")])
prop("C09", "Rearranging operators give exactly the specified arrangement",
     "Appending and prepending an element, concatenating and repeating lists, enumerating, reversing, reflecting (also quad-reflecting and quad-palindromizing), palindromizing, weaving two sequences, flattening (one level of nesting or all of it), zipping (also with a default for missing items), Cartesian products, permutations, combinations and the matrix constructors, cutting into groups of a size, into a number of parts or at given places, distributing over several lists, zipping lines of text, replacing items at given places and removing all items equal to a value give exactly the specified items in the specified order, for strings, lists and Ranges alike; a result is never shorter or longer than specified and the operands are left unchanged.",
     ["inputs"], "every operand of every type, of any length",
     ["execution.py"], [("APPENDELEM, PREPENDELEM, APPENDLIST, REPEATLIST, ENUMERATE, REVERSE, REFLECT, PALINDROMIZE, QUADREFLECT, QUADPALINDROMIZE, WEAVE, FLATTEN, FLATTENALL, ZIP, ZIPDEFAULT, CARTESIANPRODUCT, PERMUTATIONS, COMBINATIONS, GROUP, CHOP, SPLITAT, UNWEAVE, ZIPJOIN, REPLACEAT, REMOVE, IDENTITYMATRIX, ONEGRID, ZEROGRID, COORDINATEGRID", "execution.py")],
     level_note="Proved for all lengths (loop invariants and relational induction), except that CHOP, UNWEAVE and REMOVE from a list are checked by bounded testing. The tuples Python's itertools and zip produce for a symbolic number of sequences are uninterpreted functions of the sequences.")
prop("C22", "Random operators only ever give what they choose from",
     "A random number lies in the range asked for (from the lower bound up to, not including, the upper one), a random choice is one of the items, and a shuffled string, list or Range has exactly the same items, each as often as before; when there is nothing to choose from the result is nil. The operand is left unchanged. The variable r is a new random number, and assigning to it restarts the numbers from a point that depends on the text assigned.",
     ["inputs", "schedules"], "every operand of every type and length, whichever numbers the generator returns",
     ["execution.py"], [("RANDRANGE, RANDRANGETO, RANDCHOICE, SHUFFLE, getr, setr", "execution.py")],
     level_note="Python's random module is assumed to return values of the range it promises and to shuffle by rearranging. SHUFFLE of a string is checked by bounded testing.")
prop("C23", "The command line and the interactive loop run exactly the program and arguments they are given",
     "The program comes from the given code, -e, the file of -f, standard input (-i), or else the file named by the first argument, in that order; the other arguments, or the lines of standard input with -r, reach it in order as strings, or with -x as the values of the expressions they spell. "
     "Each list-format flag selects its own output format and -d means -p, -v and -w; -V prints the version, and -v additionally prints the size, the tokens and the parse tree. "
     "An argument string is split at spaces outside quotes. A program that cannot be read, scanned or parsed is not run and is reported on standard error, as is a failing run; a fatal error ends the command with status 1 and never leaves run(). "
     "The interactive loop reads more lines while the input is incomplete, drops input with a syntax error, runs each statement, prints every result that is not None in repr form and records it in the history variables, obeys ;help, ;warnings and ;quit, and keeps going after an error.",
     ["inputs", "histories"], "every program text, argument list, combination of flags and contents of standard input and files; every session",
     ["pip.py"], [("pip, main, run, repl", "pip.py")],
     level_note="argparse is trusted to parse the options the code declares. Reading, scanning, parsing and running are uninterpreted effects, the same for code and contract. The text of error messages is not specified. The interactive loop as a whole is checked by bounded testing (random sessions); what each of its calls does is proved under the other properties.")
prop("C14", "Control flow runs exactly the right parts, in order and as often as specified",
     "AND, OR, the conditional operator and IF evaluate the condition once and then exactly one branch (the versions that work on values choose the same operand); FOR assigns the loop variable and runs the body once per item in order; LOOP runs the body exactly the counted number of times; WHILE and TILL test the condition before each pass and stop at the first failing (succeeding) test. "
     "No operand or body statement is evaluated more often, less often or in another order.",
     ["inputs", "schedules"], "every operand, condition and body, whatever the evaluated parts do to the interpreter's state; any number of iterations",
     ["execution.py"], [("AND, OR, IFTE, RVALAND, RVALOR, RVALIFTE, IF, FOR, LOOP, WHILE, TILL", "execution.py")],
     level_note="The calls that evaluate parts of the program are uninterpreted functions of the interpreter state and their arguments, the same for code and contract.")
prop("C11", "Mapping and filtering operators call the function once per element, in order, and collect exactly the results",
     "Mapping a function over a string, list or Range calls it exactly once per element in order and returns the list of the results; the variants pass (index, element), coordinates, adjacent pairs, unpacked items or items of several lists side by side, and the summing variant adds the results. "
     "Filtering keeps exactly the elements whose result is true (or false, for the negated form), or their indices, in order; the joining and flattening variants join or flatten that result. The iterable is not modified, and a function is called with no other arguments and no more often.",
     ["inputs"], "every function (any results and side effects) and every finite iterable of any length",
     ["execution.py"], [("MAP, MAPCOORDS, MAPENUMERATE, MAPMAP, MAPPAIRS, MAPSUM, MAPUNPACK, MAPZIP, MAPJOIN, MAPFLATTEN, FILTER, FILTERJOIN, FILTERNOT, FILTERENUMERATE, FILTERINDEXES, FILTERUNPACK", "execution.py")],
     level_note="functionCall is an uninterpreted effect of the interpreter state and its arguments, the same for code and contract.")
prop("C12", "The meta-operators map, fold and scan an operator over an iterable in order",
     "A mapped unary operator is applied to each element in order; a folded binary operator combines the elements from the left for left-associative operators and from the right for right-associative ones, and for comparison (chaining) operators evaluates the chain of all elements; "
     "folding one element gives that element and folding an empty iterable gives the operator's default value; a scan gives the list of the folds of all prefixes (suffixes for right-associative operators). Each application happens once.",
     ["inputs"], "every operator, associativity and iterable of any length",
     ["execution.py"], [("MAPMETA, FOLDMETA, SCANMETA", "execution.py")],
     level_note="evaluate is an uninterpreted effect; an operator applied to values is assumed to give a value.")
prop("C13", "Evaluation follows the operator's flags: operand preparation, item-by-item expansion, lambda building, literals",
     "A literal denotes its text (delimiters removed, escapes undone), a value evaluates to itself and a name to its variable. "
     "An operator's operands are prepared exactly once each, left to right, as its flags ask; an item-by-item operator is applied to the elements in order, to corresponding elements of two lists, with the left-over elements of the longer one unchanged; "
     "if an operand is a function and the operator allows it, the result is the function that applies the operator to the functions' results, with their statements in operand order; compute-and-assign evaluates the target once and assigns the result; "
     "anything that is not an expression is a fatal error. A statement is run as the command it names with its parts, or evaluated as an expression.",
     ["inputs", "schedules"], "every operator with any flags, every operand expression and value, whatever evaluation does to the interpreter's state",
     ["execution.py", "ptypes.py", "operators.py"], [("evaluate, executeStatement", "execution.py"), ("toPipType on literals", "ptypes.py"), ("Operator.copy", "operators.py")],
     level_note="Calls of getRval, evaluate, ASSIGN and the operator methods are uninterpreted effects; expansion of two operands requires finite ones (known finding).")
prop("C10", "Operators that take from, add to or update a variable change it exactly as specified",
     "Popping, dequeuing and picking return the first, last and indexed item and leave the variable holding exactly the remaining items in order (an empty or unbounded operand as specified gives nil and leaves it alone); pushing puts the item at the front or back; "
     "swapping exchanges two variables' values, assignment stores the right operand's value, increment and decrement store the value plus or minus one, and yanking stores the value in y. "
     "The variable is read once and written at most once, and an operand that is not a variable is left unchanged.",
     ["inputs", "histories"], "every operand of every type and length, whether a variable or a value",
     ["execution.py"], [("POP, DEQUEUE, PICK, PUSH, PUSHBACK, SWAP, ASSIGN, INC, DEC, YANK, YANKPRINT", "execution.py")],
     level_note="getRval, assign, evaluate and PRINT are uninterpreted effects of the interpreter state and their arguments.")
prop("C18", "String operators give exactly the specified text for all strings",
     "Concatenation, wrapping, repetition, joining (also of nested lists, with every separator between two items and nowhere else), trimming, stripping (by characters, patterns or each of several in turn), case changes, character codes, deletion and transliteration of characters give exactly the specified text; they apply to the items of a list or Range, combine patterns as the patterns of the combined text with the flags of both, and give nil on operands they do not support.",
     ["inputs"], "every operand of every type",
     ["execution.py"], [("CAT, WRAP, STRMUL, JOIN, JOINWRAP, TRIM, STRIP, LSTRIP, RSTRIP, *CASE, INITIALCAPS, ASC, CHR, DELETECHARS, TRANSLITERATE", "execution.py")],
     level_note="The case mappings and strip methods of Python strings are uninterpreted functions; DELETECHARS and TRANSLITERATE are checked by bounded testing against the contract.")
prop("C19", "Operators that use patterns process every match, in order, and set the match variables at each",
     "A string used as a pattern matches exactly itself, and a list or Range matches any of its items. Matching, looping and mapping over matches, indexing by a pattern, replacing, removing and splitting visit the matches from left to right, once each, set the match variables to a match before anything is computed from it, and leave the rest of the text as it is; "
     "replacing several things replaces one after the other, pairing old with new and deleting the old ones that have no new one. "
     "Combining patterns (repetition, concatenation, alternation, grouping) gives the pattern of the combined source with the flags of both; back-references keep meaning the group they are written for.",
     ["inputs", "schedules"], "every pattern, text and replacement function, whatever the functions called do to the interpreter's state",
     ["execution.py", "ptypes.py"], [("FULLMATCH, FIRSTMATCH, LOOPREGEX, MAPREGEX, REPLACE, REMOVE, SPLIT, REGEX, KLEENESTAR, AT", "execution.py"), ("Pattern", "ptypes.py")],
     level_note="What a compiled regular expression matches is an uninterpreted function of its source, flags and the text; the translation of Pip patterns to Python ones (asRegex, asReplacement, asSeparator) is checked by exhaustive bounded testing.")
prop("C15", "A function call evaluates its arguments, runs its statements in a scope of its own and always leaves that scope",
     "Calling a function evaluates the arguments left to right once each, opens one scope for the call, runs the statements in order (recording each statement's value in the history variables), evaluates the return expression, and closes the scope again exactly once, also when a statement raises. "
     "Applying a value to arguments calls it if it is a function and otherwise indexes it by each argument in turn; a list expression evaluates its items in order; a comparison chain evaluates each comparison in order and stops at the first false one; "
     "a block is a function whose last statement, if an expression, is its return value. A program runs as one such call with the program's arguments after the variables have been set up; evaluating a function without arguments runs its code in the current scope, with arguments it is called; recursion calls the current function.",
     ["inputs", "schedules"], "every function, argument list and statement list, whatever the statements do, including raising an error",
     ["execution.py"], [("functionCall, updateHistoryVars, SEND, LIST, CHAIN, BLOCK, EVAL (of functions), RECURSE, executeProgram", "execution.py")],
     level_note="openScope, closeScope, executeStatement, getRval, assign and evaluate are uninterpreted effects.")
prop("C05", "Each variable lives in one table, holds its own copy, and is read and assigned exactly as specified",
     "Variables a to g and history variables ($ followed by underscores) belong to the current call's scope and all others are global; a call's scope binds a to e to its arguments, f to the function and g to the argument list, and leaving it brings back the caller's scope unchanged. "
     "Assigning a name stores a copy of the value under exactly that name; assigning an item or a slice of a list or string replaces exactly that item or slice (cyclic index, clipped slice; a Range becomes a list first; an index into something empty or absent changes nothing); destructuring assigns corresponding items and nil where there is none. "
     "Reading gives a copy of the current value (nil if undefined), indexed in turn by each subscript; q (the next line of the standard input, nil after the last) and r are evaluated once per occurrence. No value is shared between two variables, so changing one never changes another. Indexing or slicing a variable names that part of it. At the start of a program every global variable has its documented value.",
     ["inputs", "histories"], "every variable table, name (other than three-letter words), subscript and value",
     ["execution.py", "ptypes.py"], [("getRval, assign, getq, isDefined, varTable, openScope, closeScope, WIPEGLOBALS, AT, LEFTOF, RIGHTOF, PREFIX, SUFFIX, Lval, LocalScope", "execution.py"), ("List.__setitem__, Scalar.__setitem__", "ptypes.py")],
     level_note="Assignment through two or more subscripts is checked by bounded testing against the contract, and scope stacks of up to three scopes are considered.")
prop("C20", "Searching, counting, membership and distinctness are exact for every value",
     "Membership and counting count exactly the elements equal to the item (for a string in a string the non-overlapping occurrences, for a pattern the matches); the first index found is the smallest one at which the item occurs, at or after the start asked for, and nil if there is none; "
     "all indices are found, in increasing order, overlapping occurrences included; a list of items searched for in a string or Range gives the list of the results. "
     "Removing duplicates keeps exactly the first occurrence of each value, in order.",
     ["inputs"], "every pair of operands of every type and length",
     ["execution.py", "ptypes.py"], [("IN, NOTIN, FIND, FINDALL, UNIQUE", "execution.py"), ("__contains__, count, index of Scalar, List, Range", "ptypes.py")],
     level_note="str.count/index and list.count/index of Python are uninterpreted functions of their arguments; the set of seen items is treated as membership by equality (hash agrees with equality, C03).")
prop("C16", "Output is exactly the text form of the value, and the source form reads back as the value",
     "Printing writes the text form of the value and a newline, outputting writes it without one, nil writes nothing, and both pass the value on; a program's result is printed once, after it has run, and an empty program prints nothing. "
     "The text of a string, number or pattern is itself, of nil nothing, of an unbounded Range its source form; the text of a list (or bounded Range) is made of its items, in order, exactly as the list format chosen by the user asks: joined by nothing, newlines or spaces, in source form, or one item per line (as source, or with inner lists joined by nothing or spaces). "
     "The source form of a value (quoted, escaped, bracketed) is itself a Pip expression whose value is the value.",
     ["inputs"], "every value, all seven list formats",
     ["ptypes.py", "execution.py"], [("__str__ and __repr__ of the types, List.joined", "ptypes.py"), ("PRINT, OUTPUT, YANKOUTPUT, STR, REPR, executeProgram", "execution.py")],
     level_note="Consecutive writes are one write; that the source form reads back as the value goes through the scanner and the parser and is checked by bounded testing (functions and unusual spellings of negative numbers are left out).")
prop("C17", "A program is read as the syntax tree its tokens, precedences and associativities determine",
     "A program is divided into the documented tokens: comments and white space are dropped, a run of capital letters is divided into words of two letters (an odd run starts with a single one), the longest operator is taken, and a literal ends at its first delimiter that is not escaped. "
     "Operators are grouped by the precedence and associativity of the operator table, comparisons of one level form a chain, a unary operator takes what binds more strongly than itself, meta-operators ($ \\$ * :) change the operator they are attached to and nothing else, and commands take exactly the parts the command table lists. "
     "An unfinished program is reported as incomplete syntax and any other one that fits nothing as bad syntax; the text written for a tree reads back as the same tree up to parentheses. Every operator and command has its documented function, arity, precedence, associativity, default and flags.",
     ["inputs"], "every program text and token sequence",
     ["scanning.py", "parsing.py", "operators.py"], [("tokenize, scan", "scanning.py"), ("parse and the functions it calls, unparse", "parsing.py"), ("precedenceTable, cmdTable", "operators.py")],
     level_note="The parsing functions are proved against a specification of the grammar; the token list is part of the abstract state (its items are functions of it), what a called parsing function returns is an uninterpreted function of the list, the tokens are what the scanner makes of their text, and trees are well-formed and not shared. The scanner, the writing back of trees, and text with interpolated expressions are bounded stand-ins: every pair of operators, every sequence of up to four tokens from 22 representative ones, and random programs are compared with a reference scanner and parser. The operator and command tables are checked entry by entry (all instances).")
prop("C21", "Sorting gives the same items in stable order of the chosen key, and extrema pick the first best item",
     "Sorting a finite iterable by number, by text or by a key function gives a list of exactly the items, ordered by the key (computed once per item, in order), items with equal keys in their original order, also when the order is descending; a string sorted as text is rearranged to a string. "
     "Numbers count by their numeric value, lists and bounded Ranges as lists of numbers, functions, patterns and nil as 0, an unbounded Range as []; if the keys cannot be compared the result is nil. "
     "Maximum and minimum of a finite iterable give the first of the items whose numeric value is greatest (least), and nil for an empty collection.",
     ["inputs"], "every iterable value and every key function",
     ["execution.py", "ptypes.py"], [("SORTNUM, SORTSTRING, SORTKEYED, DESCENDING*, MAX, MIN", "execution.py"), ("toNumber of the types", "ptypes.py")],
     level_note="Python's sorted, min and max (their stability included) are uninterpreted functions of the sequence of items and the sequence of keys; whether keys can be compared is an uninterpreted predicate of the keys.")
prop("C08", "Base conversion gives the digits of the integer, and reading them back gives the integer",
     "Converting an integer to a base (2 to 36, 2 if none is given) gives its digits, most significant first, with a leading minus if it is negative and 0 for zero; the list form gives the digit values (each negated if the number is negative, none for zero) in any base of at least 2, item by item for a list or Range. "
     "Reading digits gives the number they denote (0 for the empty string, nil if they are not digits of the base); the list form gives the sum of each digit times its power of the base. "
     "Reading back what was written in the same base gives the integer; an unsupported base or type gives nil.",
     ["inputs"], "every value and base; integers of any size",
     ["execution.py"], [("TOBASE, FROMBASE, TODIGITS, FROMDIGITS", "execution.py")],
     level_note="Python's int(text, base) is an uninterpreted function; that reading inverts writing is checked by bounded testing (every base, numbers around its powers, random numbers).")
