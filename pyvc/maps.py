"""Variable tables: dictionaries from names to values with unknown contents.

A MapV is a Python dict whose keys are strings and whose values are values of
the verified program.  It is represented by two functions (is the name bound,
and to what) given as z3 arrays, plus the most recent entry `pending`, which
may be a heap object that is still being changed in place (l@i:x).  Reading or
writing another name first folds the pending entry into the arrays.

Values in a table are owned by it: a stored heap value has to be fresh (a
copy) or of an immutable type; this is an obligation at every store.
"""
import z3
from . import logic as L
from .logic import Val
from .values import *

HAS = z3.ArraySort(L.Str, L.B)
VALS = z3.ArraySort(L.Str, Val)
IMMUTABLE = frozenset(["nil", "range", "pattern", "block"])


class MapV:
    __slots__ = ("has", "vals", "pending", "serial", "frozen", "tags")

    def __init__(self, has, vals, tags):
        self.has, self.vals, self.tags = has, vals, tags
        self.pending = None            # (key term, engine value)
        self.serial = 0
        self.frozen = False


def sym(I, name, tags=L.PIPTAGS):
    m = MapV(z3.Const(name + "!has", HAS), z3.Const(name + "!vals", VALS), tags)
    k = z3.Const("k!" + name, L.Str)
    e = z3.Select(m.vals, k)
    I.c.assume(z3.ForAll([k], z3.Implies(z3.Select(m.has, k), z3.And(
        z3.Or(*[L.is_tag(e, x) for x in sorted(tags)]), L.pip(e))), patterns=[e]))
    return m


def put(I, m, **kw):
    for f, v in kw.items():
        I.c.setattr(m, f, v)


def arrays(I, m):
    """(has, vals) with the pending entry folded in, without freezing it."""
    if m.pending is None:
        return m.has, m.vals
    k, v = m.pending
    return z3.Store(m.has, k, z3.BoolVal(True)), z3.Store(m.vals, k, I.box(v))


def flush(I, m):
    if m.pending is not None:
        k, v = m.pending
        I.freeze(v)
        h, a = arrays(I, m)
        put(I, m, has=h, vals=a, pending=None)


def key(I, k):
    k = I.unbox(k)
    if isinstance(k, Dyn):
        I.resolve(k)
        k = I.unbox(k)
    if not I.is_str_like(k):
        raise Unsupported("variable table with a key that is not a string")
    t = I.str_term(k)
    I.c.keep.append(t)
    return t


def at_key(I, m, k):
    """Make the pending entry, if it is the same name, or nothing pending."""
    if m.pending is not None and m.pending[0].get_id() != k.get_id():
        flush(I, m)
    return m.pending


def contains(I, m, k):
    k = key(I, k)
    if at_key(I, m, k) is not None:
        return True
    return I.mkbool(z3.Select(m.has, k))


def get(I, m, k):
    k = key(I, k)
    p = at_key(I, m, k)
    if p is not None:
        return p[1]
    if not I.c.branch(z3.Select(m.has, k)):
        raise PyRaise(ExcObj(KeyError))
    t = z3.Select(m.vals, k)
    I.c.define(z3.Or(*[L.is_tag(t, x) for x in sorted(m.tags)]))
    I.c.define(L.pip(t))
    d = Dyn(t)
    I.set_tags(d, m.tags)
    put(I, m, pending=(k, d))
    I.note(("map", m))
    I.c.keep.append(d)
    I.c.setitem(I.c.memo, ("home", id(d)), (m, k))
    return d


def owned(I, v):
    """Is v certainly not shared with anything that existed before?"""
    v = I.unbox(v)
    if isinstance(v, Dyn):
        return I.tags(v) <= IMMUTABLE or z3.is_app(v.t) and v.t.decl().name() == "copy!"
    return not isinstance(v, Obj) or not v.frozen and v.serial > 0


def put_value(I, m, k, v):
    if m.frozen:
        raise Unsupported("frame: mutation of a shared table")
    k = key(I, k)
    at_key(I, m, k)
    v = I.unbox(v)
    if isinstance(v, Dyn):
        I.resolve(v)
    elif not isinstance(v, Obj):
        raise Unsupported("a table entry that is not a value of the program")
    if not I.spec_mode:
        I.obligation("a stored value is a copy, not shared with anything else", z3.BoolVal(owned(I, v)))
    put(I, m, pending=(k, v))
    I.note(("map", m))


def home(I, d):
    """The table entry that the borrowed value d is, or None."""
    h = I.c.memo.get(("home", id(d)))
    if h is None:
        return None
    m, k = h
    if m.pending is not None and m.pending[1] is d:
        return h
    return None


def mutate_entry(I, d, act):
    """Change the table entry d (a borrowed value) in place by act(object)."""
    P = I.w.P
    m, k = home(I, d)
    I.resolve(d)
    (t,) = I.tags(d)
    if t == "list":
        o = I.new_obj(P.List, {"_value": I.new_plist(seq=I.seq_of(d))})
    elif t == "scalar":
        o = I.new_obj(P.Scalar, {"_value": I.field_of(d, t, "_value")})
    else:
        return act(d)
    put(I, m, pending=(k, o))
    I.note(("map", m))
    return act(o)


def equal(I, a, b):
    """Goals: two tables bind the same names to the same values."""
    sa, sb = stores(I, a), stores(I, b)
    if roots(I, a) == roots(I, b) and \
            [k.get_id() for k, _ in sa] == [k.get_id() for k, _ in sb]:
        g = [I.val_eq(x, y) for (_, x), (_, y) in zip(sa, sb)]
        return z3.And(*g) if g else z3.BoolVal(True)
    (ha, va), (hb, vb) = arrays(I, a), arrays(I, b)
    k = I.c.fresh("anyname", L.Str)
    return z3.And(z3.Select(ha, k) == z3.Select(hb, k),
                  z3.Implies(z3.Select(ha, k), z3.Select(va, k) == z3.Select(vb, k)))


def roots(I, m):
    h, v = arrays(I, m)
    while z3.is_store(h):
        h = h.arg(0)
    while z3.is_store(v):
        v = v.arg(0)
    return h.get_id(), v.get_id()


def stores(I, m):
    """Stored (name, value) pairs, oldest first; a mere read is dropped."""
    h, v = arrays(I, m)
    out = []
    root = v
    while z3.is_store(root):
        root = root.arg(0)
    while z3.is_store(v):
        x = v.arg(2)
        if not (z3.is_select(x) and x.arg(0).get_id() == root.get_id() and x.arg(1).get_id() == v.arg(1).get_id()
                and not z3.is_store(v.arg(0))):
            out.append((v.arg(1), x))
        v = v.arg(0)
    return out[::-1]


def final_goals(I, lab, a, b, seen=None):
    """Goals for: the object graphs a (code) and b (contract) are equal."""
    seen = {} if seen is None else seen
    if isinstance(a, MapV) and isinstance(b, MapV):
        return [(lab, equal(I, a, b))]
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls.__name__ in ("ProgramState", "LocalScope", "Lval"):
        if id(a) in seen or id(b) in seen:
            return [(lab + " (identity)", z3.BoolVal(seen.get(id(a)) is b and seen.get(id(b)) is a))]
        seen[id(a)], seen[id(b)] = b, a
        if a.cls is not b.cls or set(a.fields) != set(b.fields):
            return [(lab, z3.BoolVal(False))]
        out = []
        for f in a.fields:
            out += final_goals(I, f"{lab}.{f}", a.fields[f], b.fields[f], seen)
        return out
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return [(lab, z3.BoolVal(False))]
        out = []
        for k in a.d:
            out += final_goals(I, f"{lab}[{k}]", a.d[k], b.d[k], seen)
        return out
    if isinstance(a, PList) and isinstance(b, PList) and a.items is not None and b.items is not None and \
            any(isinstance(x, Obj) and x.cls.__name__ == "LocalScope" for x in a.items + b.items):
        if len(a.items) != len(b.items):
            return [(lab, z3.BoolVal(False))]
        out = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            out += final_goals(I, f"{lab}[{i}]", x, y, seen)
        return out
    if isinstance(a, (BoundMethod,)) and isinstance(b, BoundMethod):
        return [] if a.name == b.name else [(lab, z3.BoolVal(False))]
    if a is b:
        return []
    if isinstance(a, Obj) and a.cls.__name__ == "ErrorReporter":
        return []
    return [(lab, I.val_eq(I.box(a), I.box(b)))]
