"""Regular expressions known only at run time.

A compiled expression is an opaque object determined by its source and flags;
what it matches in a text is an uninterpreted function of the two.  A match is
an opaque value with a text, a start and an end."""
import types
import z3
from . import logic as L
from .logic import Val, SQ, ST
from .values import *
from .world import uf, HostMethod

MATCH = frozenset(["match"])


def ob(rx):
    return uf("rx!" + rx.kind, L.Str, L.I, L.Ob)(rx.src, rx.flags)


def compiled(I, kind, src, flags):
    import re
    if not I.c.branch(uf("rx_ok!" + kind, L.Str, L.I, L.B)(src, flags)):
        raise PyRaise(ExcObj(re.error))
    return RegexV(src, flags, kind)


def match_value(I, o, s, t):
    """The match value t of the expression o in the text s."""
    m = Val.mid(t)
    I.c.define(L.is_tag(t, "match"))
    bounds(I, m, s)
    d = Dyn(t)
    I.set_tags(d, MATCH)
    return d


def bounds(I, m, s):
    a, b = uf("m_start", L.Ob, L.I)(m), uf("m_end", L.Ob, L.I)(m)
    I.c.define(z3.And(0 <= a, a <= b, b <= ST.len(s), uf("m_text", L.Ob, L.Str)(m) == s))


def text_arg(I, v):
    v = I.unbox(v)
    if isinstance(v, Dyn):
        I.resolve(v)
        v = I.unbox(v)
    if not I.is_str_like(v):
        raise PyRaise(ExcObj(TypeError))
    return I.str_term(v)


def finditer(I, rx, s):
    o = ob(rx)
    q = uf("rx_finditer", L.Ob, L.Str, L.VSeq)(o, s)
    I.c.keep.append(q)
    I.c.setitem(I.c.memo, ("stags", q.get_id()), MATCH)
    j = z3.Int("fi!j")
    e = SQ.at(q, j)
    m = Val.mid(e)
    a, b = uf("m_start", L.Ob, L.I)(m), uf("m_end", L.Ob, L.I)(m)
    I.c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SQ.len(q)), z3.And(
        L.is_tag(e, "match"), 0 <= a, a <= b, b <= ST.len(s), uf("m_text", L.Ob, L.Str)(m) == s)),
        patterns=[e]))
    p = I.new_plist(seq=q)
    p.frozen = True
    return p


def sub(matches, f, s):
    """What re.sub does with a function (interpreted by the engine)."""
    out = ""
    pos = 0
    for m in matches:
        out += s[pos:m.start()] + f(m)
        pos = m.end()
    return out + s[pos:]


def method(w, I, rx, nm, args, kwargs):
    if kwargs:
        raise Unsupported("regex method with keywords")
    if nm == "finditer":
        s = text_arg(I, args[0])
        q = finditer(I, rx, s).seq
        return GenObj(n=I.slen(q), elem=lambda k: I.seq_elem(q, k), seq=q)
    if nm in ("search", "match", "fullmatch"):
        s = text_arg(I, args[0])
        if len(args) > 1:
            raise Unsupported("regex with a position")
        o = ob(rx)
        if not I.c.branch(uf("rx_has!" + nm, L.Ob, L.Str, L.B)(o, s)):
            return None
        t = uf("rx_match!" + nm, L.Ob, L.Str, Val)(o, s)
        return match_value(I, o, s, t)
    if nm == "sub" and len(args) == 2:
        s = text_arg(I, args[1])
        r = I.unbox(args[0])
        if isinstance(r, (Closure, BoundMethod, types.FunctionType)):
            return I.call_function(sub, [finditer(I, rx, s), r, Sym("str", s)], {})
        o = ob(rx)
        rt = text_arg(I, r)
        if not I.c.branch(uf("rx_sub_ok", L.Ob, L.Str, L.B)(o, rt)):
            import re
            raise PyRaise(ExcObj(re.error))
        return Sym("str", uf("rx_sub", L.Ob, L.Str, L.Str, L.Str)(o, rt, s))
    if nm == "split" and len(args) == 1:
        s = text_arg(I, args[0])
        q = uf("rx_split", L.Ob, L.Str, L.VSeq)(ob(rx), s)
        I.c.keep.append(q)
        I.c.setitem(I.c.memo, ("stags", q.get_id()), frozenset(["str", "none"]))
        j = z3.Int("fi!j")
        e = SQ.at(q, j)
        I.c.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SQ.len(q)), z3.Or(L.is_tag(e, "str"), L.is_tag(e, "none"))),
                             patterns=[e]))
        return I.new_plist(seq=q)
    raise Unsupported(f"regex.{nm}")


def match_method(w, I, d, nm, args, kwargs):
    m = d.t.arg(0) if L.cons_tag(d.t) is not None else Val.mid(d.t)
    a, b = uf("m_start", L.Ob, L.I)(m), uf("m_end", L.Ob, L.I)(m)
    s = uf("m_text", L.Ob, L.Str)(m)
    bounds(I, m, s)
    if kwargs or args and not (len(args) == 1 and I.unbox(args[0]) == 0):
        raise Unsupported("match groups")
    if nm == "start":
        return I.mkint(a)
    if nm == "end":
        return I.mkint(b)
    if nm == "group":
        return I.mkstr(I.mkslice(s, a, b, I.slen(s)))
    raise Unsupported(f"match.{nm}")


def install(w):
    import re
    P = w.P
    w.tag_class["match"] = re.Match

    def pat(I, v):
        v = I.unbox(v)
        t = I.box(v)
        cons = L.cons_tag(t) is not None
        return (t.arg(0) if cons else Val.praw(t)), (t.arg(1) if cons else Val.pflags(t))

    w.models[P.Pattern.asRegex] = lambda I, a, k: compiled(I, "pip", *pat(I, a[0]))
    w.models[P.Pattern.asSeparator] = lambda I, a, k: compiled(I, "plain", *pat(I, a[0]))
    w.models[P.Pattern.asReplacement] = lambda I, a, k: Sym("str", uf("rx_replacement", L.Str, L.Str)(pat(I, a[0])[0]))

    def escape(I, a, k):
        v = I.unbox(a[0])
        if isinstance(v, str):
            return re.escape(v)
        return Sym("str", uf("re_escape", L.Str, L.Str)(text_arg(I, v)))
    w.models[re.escape] = escape
