"""Counterexample search: the contracts are executed by CPython next to the
real functions, on enumerated, random and source-derived inputs."""
import ast
import base64
import contextlib
import io
import itertools
import os
import pickle
import random
import signal
import sys
import time
import types
from . import gen as G
from . import spec as SP
from . import engine as E


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


@contextlib.contextmanager
def limit(sec):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Skip(Exception):
    pass


SKIPS = (RecursionError, MemoryError)


def is_iter(x):
    return hasattr(x, "__next__")


def take(x, n):
    return list(itertools.islice(x, n))


def materialise(r):
    """Iterators are consumed (up to a bound) inside the time limit."""
    if is_iter(r):
        return ("iter", take(r, 60))
    if isinstance(r, SP._Inf):
        return ("inf", [r.elem(i) for i in range(60)])
    return r


def run(f, args, sec):
    """('return', v) / ('raise', exc) / ('timeout',)"""
    try:
        with limit(sec):
            return ("return", materialise(f(*args)))
    except Timeout:
        return ("timeout",)
    except SKIPS:
        return ("skip",)
    except SystemExit as e:
        return ("raise", e)
    except Exception as e:
        return ("raise", e)


def helpers(fn, node, world):
    """The functions without a contract that fn calls by name (one level)."""
    out = []
    if world is None:
        return out
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            cands = [c.__dict__.get(n.attr) for m in world.modules.values() for c in vars(m).values()
                     if isinstance(c, type) and c.__module__ == m.__name__]
        elif isinstance(n, ast.Name):
            cands = [fn.__globals__.get(n.id)]
        else:
            continue
        for f in cands:
            f = getattr(f, "__func__", f)
            if isinstance(f, types.FunctionType) and f is not fn and world.contract_for(f) is None and f not in out:
                out.append(f)
    return out[:12]


def harvest(fn, world=None):
    ints, strs = set(), set()
    try:
        node = E.function_node(fn)
    except Exception:
        return
    nodes = [node]
    for f in helpers(fn, node, world):
        try:
            nodes.append(E.function_node(f))
        except Exception:
            pass
    for n in [x for nd in nodes for x in ast.walk(nd)]:
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                continue
            if isinstance(n.value, int) and abs(n.value) < 10 ** 9:
                ints |= {n.value, n.value + 1, n.value - 1, -n.value}
            elif isinstance(n.value, str) and len(n.value) <= 12:
                strs.add(n.value)
    G.EXTRA_INTS = sorted(ints)
    G.EXTRA_STRS = sorted(strs)


def outcome_text(o):
    if o[0] == "return":
        v = o[1]
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("iter", "inf") and isinstance(v[1], list):
            return "iterator over " + G.show(v[1][:12])
        if isinstance(v, SP._Such):
            return "any value satisfying the postcondition"
        return G.show(v)
    if o[0] == "raise":
        return f"raises {type(o[1]).__name__}: {str(o[1])[:100]}"
    return o[0]


def harnessed(con, fn):
    return lambda *xs: con.harness(fn, *xs)


def call_shape(con, fn, names, vals):
    if con.harness is not None:
        return list(vals), {}
    node = E.function_node(fn)
    a = node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    d = dict(zip(names, vals))
    args, kw = [], {}
    stop = False
    for p in pos:
        if p in d and not stop:
            args.append(d[p])
        elif p in d:
            kw[p] = d[p]
        else:
            stop = True
    for p in a.kwonlyargs:
        if p.arg in d:
            kw[p.arg] = d[p.arg]
    if a.vararg is not None and a.vararg.arg in d:
        args += list(d[a.vararg.arg])
    return args, kw


def fresh_args(con, vals):
    out = [G.clone(v) for v in vals]
    if con.effects:
        for v in out:
            if isinstance(v, G.X.ProgramState):
                G.instrument(v, con.effects, con.effect_result)
    return out


@contextlib.contextmanager
def attributes(con):
    """The class attributes (program options) of this case of the contract."""
    old = []
    for k, v in con.attrs.items():
        cls, nm = k.split(".")
        if cls in ("opt", "stop", "first", "group", "ok", "lines"):
            continue
        c = getattr(G.P, cls)
        old.append((c, nm, getattr(c, nm, None)))
        setattr(c, nm, v)
    try:
        yield
    finally:
        for c, nm, v in old:
            setattr(c, nm, v)


def trial(con, fn, names, vals):
    """None if the real function meets the contract on these arguments, else
    a dict describing the disagreement.  Raises Skip if not applicable."""
    if con.requires is not None:
        try:
            if not con.requires(*vals):
                raise Skip()
        except Skip:
            raise
        except Exception:
            raise Skip()
    a1, a2 = fresh_args(con, vals), fresh_args(con, vals)
    sink, sink2 = io.StringIO(), io.StringIO()
    errs, errs2 = io.StringIO(), io.StringIO()
    env = con.environment or (lambda *xs: contextlib.nullcontext())
    with attributes(con), contextlib.redirect_stdout(sink2), contextlib.redirect_stderr(errs2), env(*vals):
        so = run(con.spec, a2, .1 if con.may_diverge and any(map(G.unbounded, vals)) else 1.0)
        if so[0] in ("timeout", "skip") or so[0] == "raise" and isinstance(so[1], SP.Undefined):
            raise Skip()
    with attributes(con), contextlib.redirect_stdout(sink), contextlib.redirect_stderr(errs), env(*vals):
        args, kw = call_shape(con, fn, names, a1)
        co = run(lambda *xs: fn(*xs, **kw), args, 2.0)
        if co[0] == "timeout":
            if con.may_diverge or max([G.magnitude(v) for v in vals] + [0]) > 1000:
                raise Skip()       # slow is not the same as wrong
            a1 = fresh_args(con, vals)
            sink.seek(0)
            sink.truncate()
            args, kw = call_shape(con, fn, names, a1)
            co = run(lambda *xs: fn(*xs, **kw), args, 8.0)
        if co[0] == "skip":
            raise Skip()
        bad = compare(con, co, so, names, a1, a2)
    if bad is None and con.environment is not None and bool(errs.getvalue()) != bool(errs2.getvalue()):
        bad = f"expected {'an' if errs2.getvalue() else 'no'} error message"
    if bad is None and (con.environment is not None or "print" in con.effects) and sink.getvalue() != sink2.getvalue():
        bad = f"different output: expected {sink2.getvalue()!r}, got {sink.getvalue()!r}"
    if bad is None:
        return None
    return {"contract": con.name, "args": {n: G.show(v) for n, v in zip(names, vals)},
            "expected": outcome_text(so), "actual": outcome_text(co), "why": bad}


def compare(con, co, so, names, a1, a2):
    if co[0] == "timeout":
        return "the real function does not terminate (8 s limit) although the contract gives a result"
    if co[0] != so[0]:
        return "one of code and contract raises, the other does not"
    if co[0] == "raise":
        if not isinstance(co[1], type(so[1])) and not (
                type(so[1]).__name__ == type(co[1]).__name__):
            return "different exception"
    else:
        x, y = co[1], so[1]
        if isinstance(y, SP._Such):
            try:
                with limit(2.0):
                    ok = y.pred(x)
            except Timeout:
                raise Skip()
            except Exception as e:
                return f"postcondition cannot be evaluated: {e!r}"
            if not ok:
                return "postcondition is false"
        else:
            tagged = lambda v: isinstance(v, tuple) and len(v) == 2 and v[0] in ("iter", "inf") and isinstance(v[1], list)
            if tagged(x) or tagged(y):
                x = x[1] if tagged(x) else list(x)
                y = y[1] if tagged(y) else list(y)
            if not SP.same(x, y):
                return "different result"
        if con.fresh == "result":
            for i, (n, a) in enumerate(zip(names, a1)):
                if SP.mutables(a).keys() & SP.mutables(co[1]).keys():
                    return f"the result shares a mutable object with {n}"
        if con.fresh:
            for i, (n, a) in enumerate(zip(names, a1)):
                given = SP.mutables(a)
                outs = [co[1]] + [b for j, b in enumerate(a1) if j != i and con.args[names[j]].mutable]
                if con.args[n].mutable:
                    outs = []
                for o in outs:
                    if given.keys() & SP.mutables(o).keys():
                        return f"the result shares a mutable object with argument {n}"
        if con.post is not None:
            if not con.post(*a1, co[1]):
                return "postcondition is false"
    for n, p, q in zip(names, a1, a2):
        if not SP.same(p, q):
            from .domains import FreshSelf, StreamDom
            if isinstance(con.args[n], (FreshSelf, StreamDom)) and co[0] == "raise" or con.args[n].consumed:
                continue
            return f"different final state of argument {n}: expected {G.show(q)}, got {G.show(p)}"
    return None


def candidates(con, seed, n):
    names = list(con.args)
    doms = [con.args[p] for p in names]
    rng = random.Random(seed)
    if con.native_args is not None:
        for v in con.native_args(rng, n):
            yield list(v)
        return
    enums = [list(d.enum()) for d in doms]
    enums = [e if e else [d.rand(rng)] for e, d in zip(enums, doms)]
    total = 1
    for e in enums:
        total *= len(e)
    if total <= n // 2:
        for v in itertools.product(*enums):
            yield list(v)
    else:
        for i in range(n // 2):
            lim = 4 + i // 20
            yield [rng.choice(e[:lim] if rng.random() < .6 else e) for e in enums]
    for _ in range(n):
        yield [d.rand(rng) if rng.random() < .85 else rng.choice(e) for d, e in zip(doms, enums)]


def search(con, world, seed, n, seconds):
    """Returns (evaluations, distinct, counterexample or None)."""
    fn = con.real(world)
    harvest(fn, world)
    if con.harness is not None:
        fn = harnessed(con, fn)
    names = list(con.args)
    t0 = time.time()
    pick = random.Random(seed)
    ev = 0
    seen = set()
    try:
        for vals in candidates(con, seed, n):
            if time.time() - t0 > seconds:
                break
            if con.may_diverge and any(map(G.unbounded, vals)) and pick.random() < .8:
                continue           # most of these run forever
            try:
                bad = trial(con, fn, names, vals)
            except Skip:
                continue
            ev += 1
            if len(seen) < 200000:
                seen.add("|".join(G.show(v) for v in vals))
            if bad is not None:
                try:
                    bad["pickle"] = base64.b64encode(pickle.dumps(vals)).decode()
                except Exception:
                    pass
                return ev, len(seen), bad
    finally:
        G.EXTRA_INTS, G.EXTRA_STRS = [], []
    return ev, len(seen), None
