"""C23: the command line and the read-eval-print loop.

What is read, scanned, parsed, evaluated, run and printed, in which order, is
compared call by call; what argparse makes of the arguments and what the
scanner, the parser and the interpreter do is the business of argparse and of
the other properties."""
from pyvc.spec import *
from pyvc.contract import contract
from pyvc.domains import *
import contextlib
from c_rearrange import bounded
import io
import os
import pprint
import random
import sys
import tempfile
import version as VERSION
import scanning as SC
import parsing as PR
import pip_main as M

C23 = ["C23"]
RUNS = ("input", "print", "stderr", "scan", "parse", "addSpaces", "pprint", "openfile", "readfile", "ProgramState",
        "evaluate", "executeProgram", "repl", "parse_args")
ON = "store_true"
OPTIONS = [("source", ("-e", "--execute"), None, None), ("source", ("-f", "--file"), None, None),
           ("source", ("-i", "--stdin"), ON, None), ("source", ("-R", "--repl"), ON, None),
           ("format", ("-l", "--lines"), ON, None), ("format", ("-n", "--newline"), ON, None),
           ("format", ("-p", "--repr"), ON, None), ("format", ("-P", "--reprlines"), ON, None),
           ("format", ("-s", "--space"), ON, None), ("format", ("-S", "--spacelines"), ON, None),
           (None, ("-d", "--debug"), ON, None), (None, ("-r", "--readlines"), ON, None),
           (None, ("-v", "--verbose"), ON, None), (None, ("-V", "--version"), ON, None),
           (None, ("-w", "--warnings"), ON, None), (None, ("-x", "--exec-args"), ON, None),
           (None, ("args",), None, "*")]


def split_arguments(text):
    """Arguments are separated by spaces; parts in single or double quotes
    are taken as they are."""
    args, quote, arg = [], None, None
    for ch in text + " ":
        if ch in "'\"":
            if quote is None:
                quote = ch
                arg = arg or ""
            elif quote == ch:
                quote = None
            else:
                arg += ch
        elif ch == " " and quote is None:
            if arg is not None:
                args.append(arg)
            arg = None
        else:
            arg = (arg or "") + ch
    return args


def read_lines():
    """The standard input up to its end."""
    text = ""
    try:
        while True:
            text += input() + "\n"
    except EOFError:
        pass
    return text


def list_format(o):
    return ("p" if o.repr else "P" if o.reprlines else "s" if o.space else "S" if o.spacelines else
            "n" if o.newline else "l" if o.lines else None)


def failed():
    print("error", file=sys.stderr)


def arguments(o, state):
    if o.readlines:
        raw = []
        try:
            while True:
                raw.append(input())
        except EOFError:
            pass
    else:
        raw = o.args
    if not o.exec_args:
        return [P.Scalar(a) for a in raw]
    out = []
    for a in raw:
        try:
            tree = PR.parse(SC.scan(a))
        except ERR.FatalError:
            failed()
            raise
        t = tree[0]
        try:
            out.append(state.evaluate(t))
        except (ERR.FatalError, RuntimeError, KeyboardInterrupt):
            failed()
            raise ERR.FatalError()
    return out


RAISES = (ERR.FatalError, SystemExit, OSError, IndexError, KeyboardInterrupt)
CODE, ARGV = DYN("none", "str"), DYN("none", "str", "pylist")


class Surroundings(Dom):
    """Standard input, process arguments."""

    def enum(self):
        return []

    def rand(self, rng):
        return ([rng.choice(LINES + PROGRAMS) for _ in range(rng.randrange(8))], command_words(rng))


PROGRAMS = ["", "a", "Pa", "a+1", "[a b]", "g", "Pg", "[1 2 [3 4]]", "[1;[2;\"a b\"];3]", "\"abc\"", "Pq", "q.q", "(", "\"abc", ")", ":", "1/0",
            "{", "Fi,3Pi", "Fi,3{", "P1P2", "x:5x*x", "i", "$", "l", "\\g", "()", "{;c;}1", "j", "a.b.c", "RV a", "#g", "{a}", "1;2", "'",
            "{Pa}M,3", "f", "(f)", "\u00e9", "\"\u20ac\"", "b", "b.a", "y", "2 3", "P[1 [2 3]]", "[\"a\" \"b c\"]"]
LINES = ["1+2", "[1 2]", "(", ")", "\"abc", "def\"", "Fi,3Pi", ";h", ";he", ";help", ";w", ";W", ";warnings off", ";warnings on", ";w x", ";q", ";x",
         ";quit now", ";exit", ";", "; ", ";zz", "$_", "$__", "$___", "$_+$__", ":", "y:3", "y", "", " ", "5 6 7", "P2", "{a+1}", "f", "1/0"]
FLAGS = ["-d", "--debug", "-l", "--lines", "-n", "--newline", "-p", "--repr", "-P", "--reprlines", "-r", "--readlines", "-s", "--space",
         "-S", "--spacelines", "-v", "--verbose", "-V", "-w", "--warnings", "-x", "--exec-args", "-R", "-xr", "-rx", "-lx"]
FILES = {"prog.pip": "[a b [1 2]]", "two.pip": "P\"x\"\ng\n", "bad.pip": "(1", "utf.pip": "\"\u00e9\""}


def command_words(rng):
    out = [rng.choice(FLAGS) for _ in range(rng.choice([0, 0, 1, 1, 2]))] + rng.choice([[], [], ["-x"], ["-v"]])
    k = rng.randrange(6)
    if k < 2:
        out += [rng.choice(["-e", "--execute"]), rng.choice(PROGRAMS)]
    elif k == 2:
        out += [rng.choice(["-f", "--file"]), rng.choice(list(FILES) + ["none.pip"])]
    elif k == 3:
        out += [rng.choice(["-i", "--stdin"])]
    elif k == 4:
        out += [rng.choice(list(FILES) + ["none.pip"])]
    out += [rng.choice(["1", "2", "a", "a b", "[1;2]", "(", ")", "[1 2]", "it's", "\"q\"", ":", "y:5", "y+1", "y"]) for _ in range(rng.choice([0, 1, 2, 3]))]
    if rng.random() < .2:
        rng.shuffle(out)
    return out


def quoted(rng, words):
    out = ""
    for w in words:
        q = rng.choice(["'", '"'])
        out += (w if w and not set(w) & set(" '\"") and rng.random() < .7 else q + w.replace(q, "") + q) + rng.choice([" ", "  "])
    return out if rng.random() < .8 else out + rng.choice(["'", '"a', "''", " "])


DIRECTED = [("b", ["-x", "y:5", "y+1"]), ("\"\u20ac\"", ["-v"]), ("[[1 2] [3 4]]", ["-S"]), ("#g", "'' a"), ("", None), ("g", ["-x", "1;2", "[]"]),
            (None, ["-e", ""]), (None, ["-i"]), ("g", ["-r"]), ("[1 [2]]", ["-d", "-l"]), ("1.' ", [])]


def calls(rng, n):
    for code, argv in DIRECTED:
        yield [code, argv, False, (["1.' ", ""], ["-i"])]
    for _ in range(4 * n):
        lines = [rng.choice(PROGRAMS if rng.random() < .5 else LINES) for _ in range(rng.randrange(7))]
        code = rng.choice(PROGRAMS) if rng.random() < .4 else None
        words = command_words(rng)
        k = rng.randrange(4)
        argv = None if k == 0 else quoted(rng, words) if k == 1 else words + ([7] if k == 3 and rng.random() < .2 else [])
        yield [code, argv, rng.random() < .5, (([quoted(rng, words)] if rng.random() < .8 else []) + lines, command_words(rng))]


def sessions(rng, n):
    for _ in range(4 * n):
        yield [rng.choice([None, "p", "P", "s", "S", "n", "l"]), rng.random() < .5,
               ([rng.choice(LINES) for _ in range(rng.randrange(9))], [])]


@contextlib.contextmanager
def around(*vals):
    """A directory with some program files, the given lines on the standard
    input and the given process arguments."""
    lines, words = vals[-1]
    old = sys.stdin, sys.argv, os.getcwd(), P.List.outFormat
    random.seed(0)
    P.List.outFormat = "P"      # as an earlier run may have left it
    with tempfile.TemporaryDirectory() as d:
        for f, text in FILES.items():
            with open(os.path.join(d, f), "w", encoding="utf-8") as h:
                h.write(text)
        try:
            os.chdir(d)
            sys.stdin, sys.argv = io.StringIO("".join(x + "\n" for x in lines)), ["pip.py"] + words
            yield
        finally:
            sys.stdin, sys.argv = old[:2]
            os.chdir(old[2])
            P.List.outFormat = old[3]


@contract("pip_main.pip", C23, dict(code=CODE, argv=ARGV, interactive=BOOL, around=Surroundings()), bounded=True, raises=RAISES,
          native_args=calls, environment=around)
def pip(code, argv, interactive, around=None):
    if code is not None or argv is not None:
        interactive = False
    if interactive:
        write(f"=== Welcome to Pip, version {VERSION.VERSION} ===\n")
        write("Enter command-line args, terminated by newline (-h for help, -R for repl):\n")
        argv = input()
    if isinstance(argv, list):
        argv = [str(a) for a in argv]
    elif argv is not None:
        argv = split_arguments(argv)
    o = command_line(OPTIONS, argv)
    if o.version:
        write(f"Pip {VERSION.VERSION} (updated {VERSION.COMMIT_DATE})\n")
        return
    if o.debug:
        o.verbose = o.warnings = o.repr = True
    verbose = o.verbose
    if o.repl:
        M.repl(list_format(o), o.warnings)
        return
    # the program: given to the function, by -e, -f, -i, or the file named first
    path = o.file
    stdin = o.stdin
    if code is None and o.execute is None and path is None and not stdin:
        if interactive:
            stdin = True
            write("Enter your program, terminated by Ctrl-D or Ctrl-Z:\n")
        elif o.args:
            path = o.args.pop(0)
        else:
            write(f"Type {sys.argv[0]} -h for usage information.\n")
            return
    if code is not None:
        program = code
    elif o.execute is not None:
        program = o.execute
    elif path is not None:
        if interactive:
            write(f"Reading {path}\n")
        try:
            with open(path) as f:
                program = f.read()
        except Exception:
            failed()
            raise ERR.FatalError()
    else:
        program = read_lines()
        if program:
            program = program[:-1]
    if verbose:
        write(f"{len(program.encode('utf-8'))} bytes (UTF-8), {len(program)} characters\n\n")
    try:
        tokens = SC.scan(program)
    except ERR.FatalError:
        failed()
        raise
    if verbose:
        write(SC.addSpaces(tokens) + "\n\n")
    try:
        tree = PR.parse(tokens)
    except ERR.FatalError:
        failed()
        raise
    if verbose:
        pprint.pprint(tree)
        write("\n")
    state = initial_state(list_format(o), o.warnings)
    args = arguments(o, state)
    if interactive:
        write("Executing...\n")
    try:
        state.executeProgram(tree, args)
    except (ERR.FatalError, RuntimeError, KeyboardInterrupt):
        failed()
        raise ERR.FatalError()


# The proof is in three parts: up to where argparse has read the arguments; from
# there to where the program is scanned; and from there on, for a program given
# as an argument of the function (nothing after this point asking where the
# program came from, which the run as a whole, above, checks on samples).
PROGRAM = dict(effects=RUNS, raises=RAISES, native=False, may_diverge=True, max_paths=100000)
contract("pip_main.pip#arguments", C23, dict(code=CODE, argv=ARGV, interactive=BOOL), attrs={"stop.parse_args": True},
         cases=dict(argv=[["none"], ["str"], ["pylist"]]), **PROGRAM)(pip)
contract("pip_main.pip#source", C23, dict(code=CODE, argv=TagDom("none"), interactive=BOOL), attrs={"first.line": "", "stop.scan": True},
         cases={"group.source": [None, "execute", "file", "stdin", "repl"]}, **PROGRAM)(pip)
contract("pip_main.pip#run", C23, dict(code=STR, argv=TagDom("none"), interactive=BOOL),
         cases={"opt.exec_args": [False, True], "opt.readlines": [False, True], "opt.debug": [False, True],
                "opt.verbose": [False, True]}, **PROGRAM)(pip)
contract("pip_main.pip#interactive", C23, dict(code=TagDom("none"), argv=TagDom("none"), interactive=TagDom("bool")),
         attrs={"first.line": "", "group.source": "execute", "opt.exec_args": False, "opt.readlines": False, "opt.verbose": False,
                "opt.debug": False}, **PROGRAM)(pip)


# ---- the read-eval-print loop ------------------------------------------------------
LOOP = ("input", "print", "stderr", "scan", "parse", "ProgramState", "executeStatement", "REPR", "PRINT", "updateHistoryVars", "warnings")


@contract("pip_main.repl", C23, dict(list_format=DYN("none", "str"), warnings=BOOL, around=Surroundings()), bounded=True,
          native_args=sessions, environment=around)
def repl(list_format, warnings, around=None):
    write(f"Pip {VERSION.VERSION}\nType ;help for more information.\n")
    state = initial_state(list_format, warnings)
    try:
        while True:
            code = input(">> ") + "\n"
            tree = None
            try:
                while tree is None:
                    try:
                        tree = PR.parse(SC.scan(code))
                    except ERR.IncompleteSyntax:
                        code += input(".. ") + "\n"
            except ERR.BadSyntax:
                failed()
                continue
            if code.startswith(";") and code[1:].strip():
                command, *rest = code[1:].lower().split()
                if "quit".startswith(command) or "exit".startswith(command) or command == "x":
                    break
                elif "help".startswith(command):
                    write(M.REPL_HELP_TEXT + "\n")
                elif "warnings".startswith(command):
                    if rest == ["on"]:
                        state.err.warnings = True
                        failed()
                    elif rest == ["off"]:
                        state.err.warnings = False
                        failed()
                    elif rest == []:
                        state.err.warnings = not state.err.warnings
                        failed()
            try:
                for s in tree:
                    value = state.executeStatement(s)
                    if value is not None:
                        state.PRINT(state.REPR(value))
                        state.updateHistoryVars(value)
            except (ERR.FatalError, RuntimeError, KeyboardInterrupt):
                failed()
    except KeyboardInterrupt:
        pass
    write("Bye!\n")


def whole_runs(rng, n):
    for x in calls(rng, n):
        yield [x[0], x[1], x[3]]


def commands(rng, n):
    for x in calls(rng, n):
        yield [x[3]]


@contract("pip_main.main#runs", C23, dict(around=Surroundings()), bounded=True, raises=RAISES, native_args=commands, environment=around)
def main_runs(around=None):
    main()


@contract("pip_main.run#runs", C23, dict(code=CODE, argv=ARGV, around=Surroundings()), bounded=True, raises=RAISES,
          native_args=whole_runs, environment=around)
def run_runs(code, argv, around=None):
    run(code, argv)


@contract("pip_main.main", C23, {}, effects=("pip", "exit"), raises=(SystemExit,), native=False)
def main():
    """Without arguments the interpreter asks for them; a fatal error ends the
    process with status 1."""
    try:
        M.pip(interactive=len(sys.argv) == 1)
    except ERR.FatalError:
        sys.exit(1)


@contract("pip_main.run", C23, dict(code=CODE, argv=ARGV), effects=("pip",), raises=(SystemExit,), native=False)
def run(code, argv):
    """Fatal errors do not leave the function."""
    try:
        if code is None and argv is None:
            M.pip(interactive=True)
        else:
            M.pip(code, [] if argv is None else argv, interactive=False)
    except ERR.FatalError:
        pass


# ---- what a program reads and draws -------------------------------------------------
@contract("execution.ProgramState.getq", ["C05"], dict(self=PROG), effects=("input",), raises=(KeyboardInterrupt,), native=False)
def getq(self):
    """The next line of the standard input, nil after the last one."""
    try:
        return P.Scalar(input())
    except EOFError:
        return P.nil


@contract("execution.ProgramState.getr", ["C22"], dict(self=PROG), effects=("random",), native=False)
def getr(self):
    return P.Scalar(random.random())


@contract("execution.ProgramState.setr", ["C22"], dict(self=PROG, rhs=PIP), effects=("seed",), native=False,
          requires=lambda self, rhs: bounded(rhs))
def setr(self, rhs):
    """Equal texts give equal random numbers."""
    random.seed(str(rhs))


def inputs(rng, n):
    for i in range(n):
        yield [PROG.rand(rng), (["", " a b ", "1"][:i % 4], [])]


def draws(rng, n):
    for i in range(n):
        yield [PROG.rand(rng), ([], [])]


@contract("execution.ProgramState.getq#lines", ["C05"], dict(self=PROG, around=Surroundings()), bounded=True, native_args=inputs, environment=around)
def getq_lines(self, around=None):
    return getq(self)


@contract("execution.ProgramState.getr#draws", ["C22"], dict(self=PROG, around=Surroundings()), bounded=True, native_args=draws,
          environment=around)
def getr_draws(self, around=None):
    return getr(self)


@contextlib.contextmanager
def shown(*vals):
    """The next random number is shown afterwards."""
    with around(*vals):
        yield
        print(random.random())


def restarts(rng, n):
    for t in ["abc", "abd", "", "1", "1.0", "x"] + [str(rng.randrange(10 ** 6)) for _ in range(n)]:
        yield [PROG.rand(rng), P.Scalar(t), ([], [])]


@contract("execution.ProgramState.setr#restart", ["C22"], dict(self=PROG, rhs=PIP, around=Surroundings()), bounded=True, native_args=restarts,
          environment=shown)
def setr_restart(self, rhs, around=None):
    setr(self, rhs)
