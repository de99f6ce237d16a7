"""The interpreter's surroundings: command line, standard input, files, and the
scanner, parser and interpreter as the main program sees them.

All of these are effects (effects.py): what a call gives and what it does are
functions of the state of the world and its arguments.  The command line is
read by argparse, which is trusted; the options it gives are functions of the
declared options (in any order) and of the arguments, options of one mutually
exclusive group not being set together."""
import argparse
import builtins
import hashlib
import pprint
import random
import sys
import types
import z3
from . import logic as L
from .logic import Val, SQ, ST, St
from .values import *
from . import effects
from .effects import uf

RESULT = {"input": {"str"}, "scan": {"pylist"}, "addSpaces": {"str"}, "pprint": {"none"}, "openfile": {"none"},
          "readfile": {"str"}, "ProgramState": {"none"}, "executeProgram": {"none"}, "pip": {"none"}, "repl": {"none"},
          "parse_args": {"str"}, "exit": {"none"}, "stderr": {"none"}, "warnings": {"none"}, "REPR": {"scalar"}}
EXC = {"input": ("EOFError", "KeyboardInterrupt"), "scan": ("IncompleteSyntax",), "parse": ("IncompleteSyntax", "BadSyntax"),
       "addSpaces": (), "pprint": (), "openfile": ("OSError",), "readfile": ("OSError", "UnicodeDecodeError"),
       "ProgramState": (), "parse_args": ("SystemExit",), "exit": (), "stderr": (), "warnings": (),
       "evaluate": ("FatalError", "RuntimeError", "KeyboardInterrupt"),
       "executeProgram": ("FatalError", "RuntimeError", "KeyboardInterrupt"),
       "executeStatement": ("FatalError", "RuntimeError", "KeyboardInterrupt"),
       "PRINT": (),
       "REPR": (), "updateHistoryVars": (),
       "pip": ("FatalError", "SystemExit"), "repl": ()}


LIBRARY = ("input", "random", "seed")
RESULT.update(random={"flt"}, seed={"none"})
EXC.update(random=(), seed=())


def has(I, name):
    return I.target is not None and name in I.target.effects


class OptParser:
    """argparse.ArgumentParser() or one of its groups."""
    __slots__ = ("decls", "group", "count")

    def __init__(self, decls, group=None):
        self.decls, self.group, self.count = decls, group, [0]


class OptMethod:
    __slots__ = ("o", "name")

    def __init__(self, o, name):
        self.o, self.name = o, name


class FileV:
    """An open text file."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class FileMethod:
    __slots__ = ("o", "name")

    def __init__(self, o, name):
        self.o, self.name = o, name


def attribute(I, o, name):
    if isinstance(o, OptParser):
        return OptMethod(o, name)
    if isinstance(o, FileV):
        return FileMethod(o, name)


def call(I, m, args, kwargs):
    args = [I.unbox(a) for a in args]
    if isinstance(m, FileMethod):
        if m.name == "read" and not args and not kwargs:
            return effects.call(I, "readfile", [m.o.path])
        if m.name == "close" and not args and not kwargs:
            return None
        raise Unsupported(f"file.{m.name}")
    o = m.o
    if m.name == "add_mutually_exclusive_group" and not args and not kwargs:
        o.count[0] += 1
        return OptParser(o.decls, o.count[0])
    if m.name == "add_argument":
        kw = {k: I.unbox(v) for k, v in kwargs.items() if k not in ("help", "metavar")}
        if set(kw) - {"action", "nargs", "dest", "default"} or not all(isinstance(a, str) for a in args) or \
                not all(isinstance(v, (str, type(None), bool)) for v in kw.values()):
            raise Unsupported("declaration of an option")
        o.decls.append((tuple(args), o.group, kw.get("action"), kw.get("nargs"), kw.get("dest"), kw.get("default")))
        return None
    if m.name == "parse_args" and not kwargs and len(args) < 2:
        return parse_args(I, o.decls, args[0] if args else None)
    raise Unsupported(f"argparse {m.name}")


def dest_of(d):
    if d[4]:
        return d[4]
    long = [n for n in d[0] if n.startswith("--")] or list(d[0])
    return long[0].lstrip("-").replace("-", "_")


def kind(d):
    if d[2] == "store_true":
        return "flag"
    if d[3] == "*" and not d[0][0].startswith("-"):
        return "list"
    if d[2] in (None, "store") and d[3] is None and d[0][0].startswith("-"):
        return "value"
    raise Unsupported("kind of option")


def is_on(t, d):
    n = dest_of(d)
    return uf("opt!" + n, L.Str, L.B)(t) if kind(d) == "flag" else z3.Not(L.is_tag(uf("opt!" + n, L.Str, Val)(t), "none"))


def option_facts(t, decls, groups):
    out = []
    for d in decls:
        if kind(d) == "value":
            v = uf("opt!" + dest_of(d), L.Str, Val)(t)
            out.append(z3.Or(L.is_tag(v, "none"), L.is_tag(v, "str")))
    for g in groups:
        if g is not None:
            on = [is_on(t, d) for d in decls if d[1] == g]
            out += [z3.Not(z3.And(on[i], on[j])) for i in range(len(on)) for j in range(i)]
    return out


def case_facts(attrs, t, decls, groups):
    """The case that is being proved."""
    out = []
    for d in decls:
        n = dest_of(d)
        if "opt." + n in attrs:
            if kind(d) != "flag":
                raise Unsupported("the cases of a contract are about another kind of option")
            out.append(is_on(t, d) == attrs["opt." + n])
        if "group.source" in attrs and d[1] is not None and "execute" in groups[d[1]]:
            out.append(is_on(t, d) == (attrs["group.source"] == n))
    return out


def parse_args(I, decls, argv):
    groups = {}
    for d in decls:
        groups.setdefault(d[1], []).append(dest_of(d))
    # the meaning of the declarations: what is declared, not in which order
    # (except for positional arguments), and which exclude each other
    key = repr((sorted((tuple(sorted(d[0], key=lambda n: (-len(n), n))), dest_of(d), d[2] or "store", d[3] or "", d[5] or "",
                        tuple(sorted(groups[d[1]])) if d[1] is not None else ()) for d in decls if d[0][0].startswith("-")),
                [(d[0], d[2] or "store", d[3] or "") for d in decls if not d[0][0].startswith("-")]))
    r = effects.call(I, "parse_args", [int(hashlib.sha256(key.encode()).hexdigest()[:12], 16), argv])
    t = I.str_term(r)
    c = I.c
    attrs = I.target.attrs
    key = ("options", t.get_id())
    facts = c.memo.get(key)
    if facts is None:
        facts = option_facts(t, decls, groups)
        if attrs:
            facts += case_facts(attrs, t, decls, groups)
        c.keep.append(t)
        c.setitem(c.memo, key, facts)
    for x in facts:
        c.define(x)
    f = {}
    for d in decls:
        n = dest_of(d)
        on = attrs.get("opt." + n)
        if "group.source" in attrs and d[1] is not None and "execute" in groups[d[1]]:
            on = attrs["group.source"] == n
        k = kind(d)
        if k == "flag":
            f[n] = on if on is not None else I.mkbool(uf("opt!" + n, L.Str, L.B)(t))
        elif k == "list":
            q = uf("opt!" + n, L.Str, L.VSeq)(t)
            c.keep.append(q)
            c.setitem(c.memo, ("stags", q.get_id()), frozenset(["str"]))
            f[n] = I.new_plist(seq=q)
        elif on is False:
            f[n] = None
        else:
            dv = Dyn(uf("opt!" + n, L.Str, Val)(t))
            I.set_tags(dv, {"str"} if on else {"none", "str"})
            f[n] = I.unbox(dv)
    return I.new_obj(argparse.Namespace, f)


def argv(I):
    q = z3.Const("sys!argv", L.VSeq)
    I.c.keep.append(q)
    I.c.setitem(I.c.memo, ("stags", q.get_id()), frozenset(["str"]))
    I.c.define(SQ.len(q) >= 1)
    p = I.new_plist(seq=q)
    p.frozen = True
    return p


def new_state(I, args, kwargs):
    X = I.w.modules["execution"]
    if not has(I, "ProgramState"):
        return NotImplemented
    from . import engine as E
    init = X.ProgramState.__init__
    fr = E.Frame(init.__globals__)
    I.bind_args(E.function_node(init).args, fr, [None] + list(args), kwargs, [I.lift(d) for d in (init.__defaults__ or ())],
                {}, "ProgramState")
    vals = [fr.locals[p.arg] for p in E.function_node(init).args.args[1:]]
    effects.call(I, "ProgramState", vals)
    err = I.new_obj(I.w.modules["errors"].ErrorReporter, {"warnings": vals[1]})
    return I.new_obj(X.ProgramState, {"err": err})


def module_call(I, name, fn, args, kwargs):
    """A call of a function of the interpreter's modules."""
    from . import engine as E
    fr = E.Frame(fn.__globals__)
    node = E.function_node(fn)
    I.bind_args(node.args, fr, list(args), kwargs, [I.lift(d) for d in (fn.__defaults__ or ())],
                {k: I.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn.__name__)
    return effects.call(I, name, [fr.locals[p.arg] for p in node.args.posonlyargs + node.args.args])


def to_stderr(I):
    """Something is written to the standard error output (what, is not specified)."""
    if not has(I, "stderr"):
        return
    st = I.ghost.fields["st"].t
    if z3.is_app(st) and st.decl().name() == "next!stderr!0":
        return
    effects.call(I, "stderr", [])


def install(w):
    m = w.modules
    effects.RESULT.update({k: v for k, v in RESULT.items() if k not in effects.RESULT})
    w.host_fns = {m["scanning"].scan: "scan", m["scanning"].addSpaces: "addSpaces", m["parsing"].parse: "parse"}
    for nm in ("pip", "repl"):
        if isinstance(getattr(m["pip_main"], nm, None), types.FunctionType):
            w.host_fns[getattr(m["pip_main"], nm)] = nm

    def no(what):
        raise Unsupported(f"{what} in a function that is not supposed to use it")

    def m_input(I, a, k):
        if not has(I, "input"):
            no("input")
        if a:
            effects.written(I, I.str_(a[0]))
        line = I.target.attrs.get("first.line")
        st = I.ghost.fields["st"].t
        while z3.is_app(st) and st.decl().name() == "next!print!1":
            st = st.arg(0)
        first = z3.is_const(st) and st.decl().name() == "state0"
        r = effects.call(I, "input", [])
        if line is not None and first:
            I.c.assume(I.str_term(r) == I.lit(line))
            return line
        commands = I.target.attrs.get("lines.command")
        if commands is not None:
            t = I.str_term(r)
            begins = z3.And(ST.len(t) > 0, ST.at(t, 0) == ord(";"))
            I.c.assume(begins if commands else z3.Not(begins))
        return r
    w.models[input] = m_input

    def m_random(I, a, k):
        if not has(I, "random") or a or k:
            no("random")
        return effects.call(I, "random", [])
    w.models[random.random] = m_random

    def m_seed(I, a, k):
        if not has(I, "seed") or k or len(a) != 1:
            no("random.seed")
        return effects.call(I, "seed", a)
    w.models[random.seed] = m_seed

    def m_open(I, a, k):
        if not has(I, "openfile"):
            no("open")
        mode = I.unbox(a[1]) if len(a) > 1 else I.unbox(k.get("mode", "r"))
        if mode not in ("r", "rt") or len(a) > 2 or set(k) - {"mode"}:
            raise Unsupported("way of opening a file")
        effects.call(I, "openfile", [a[0]])
        return FileV(I.unbox(a[0]))
    w.models[builtins.open] = m_open

    def m_pprint(I, a, k):
        if not has(I, "pprint") or k or len(a) != 1:
            no("pprint")
        return effects.call(I, "pprint", a)
    w.models[pprint.pprint] = m_pprint

    def m_exit(I, a, k):
        if not has(I, "exit"):
            no("exit")
        effects.call(I, "exit", a)
        raise PyRaise(ExcObj(SystemExit))
    w.models[sys.exit] = m_exit
    def m_parser(I, a, k):
        if a or k:
            raise Unsupported("options of ArgumentParser")
        return OptParser([])
    w.models[argparse.ArgumentParser] = m_parser
    from . import spec as SP

    def m_command_line(I, a, k):
        return parse_args(I, list(SP.declarations(I.unbox(a[0]))), a[1])
    w.models[SP.command_line] = m_command_line
    w.models[SP.initial_state] = new_state
