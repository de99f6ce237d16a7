"""Development tool: behaviour-preserving rewrites of every function of a copy
of /repo, to see that the verifier stays quiet.
    python3 tools/refactor.py KIND OUTDIR       (OUTDIR: a copy of /repo)"""
import ast
import copy
import os
import shutil
import sys

FILES = ["execution.py", "ptypes.py", "operators.py", "scanning.py", "parsing.py", "tokens.py", "pip.py"]


def N(x):
    return ast.Name(id=x, ctx=ast.Load())


def S(x):
    return ast.Name(id=x, ctx=ast.Store())


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p="tmp"):
        Base.n += 1
        return f"{p}_{Base.n}"

    def block(self, body):
        out = []
        for s in body:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
        return node


class IfExp(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return ast.If(s.value.test, self.block([a]), self.block([b]))
        return s


class Invert(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class Temp(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh("result")
            return [ast.Assign([S(t)], s.value), ast.Return(N(t))]
        return s


class CompLoop(Base):
    def loop(self, comp, t):
        add = ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [comp.elt], []))
        body = [add]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([S(t)], ast.List([], ast.Load()))] + body

    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)):
            v = s.value
            if isinstance(v, ast.ListComp):
                t = self.fresh("items")
                s.value = N(t)
                return self.loop(v, t) + [s]
            if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) \
                    and isinstance(v.func, ast.Name) and v.func.id in ("List", "sum", "tuple", "list", "all", "any", "max", "min"):
                t = self.fresh("items")
                r = self.loop(v.args[0], t)
                v.args[0] = N(t)
                return r + [s]
        return s


class LoopComp(Base):
    def block(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and p is not None and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) \
                    and not p.value.elts and isinstance(p.targets[0], ast.Name) and len(s.body) == 1:
                b, ifs = s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs, b = [b.test], b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                        and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == p.targets[0].id:
                    p.value = ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])
                    continue
            out.append(s)
        return out


def has(node, *kinds):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, kinds):
                return True
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if go(c):
                return True
        return False
    return go(node)


class ForWhile(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) \
                and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and not has(s, ast.Continue, ast.Yield):
            a = s.iter.args
            if len(a) > 2:
                return s
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            t = self.fresh("stop")
            i = s.target.id
            return [ast.Assign([ast.Tuple([S(i), S(t)], ast.Store())], ast.Tuple([lo, hi], ast.Load())),
                    ast.While(ast.Compare(N(i), [ast.Lt()], [N(t)]), s.body + [ast.AugAssign(S(i), ast.Add(), ast.Constant(1))], [])]
        return s


class Enum(Base):
    def stmt(self, s):
        if isinstance(s, ast.For):
            if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("enumerate",):
                return s
            s.target = ast.Tuple([S(self.fresh("idx")), s.target], ast.Store())
            s.iter = ast.Call(N("enumerate"), [s.iter], [])
        return s


class ElseReturn(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            rest, s.orelse = s.orelse, []
            return [s] + rest
        return s


class ReturnElse(Base):
    def block(self, body):
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[k + 1:]:
                s.orelse = self.block(body[k + 1:])
                return body[:k + 1]
        return body


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            b = s.test
            o = ast.Or() if isinstance(b.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in b.values]))
        return s


class TypeIn(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) \
                and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "type":
            pos = isinstance(n.ops[0], ast.In)
            return ast.BoolOp(ast.Or() if pos else ast.And(),
                              [ast.Compare(copy.deepcopy(n.left), [ast.Is() if pos else ast.IsNot()], [e]) for e in n.comparators[0].elts])
        return n


class AugAssign(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value))
        return s


class Helper(Base):
    """The body of every method becomes a helper method."""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and not f.name.startswith("__") and not f.decorator_list and f.args.args \
                    and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = "_impl_" + f.name
                g.args.defaults = []
                args = [N(a.arg) for a in f.args.args[1:]]
                if f.args.vararg:
                    args.append(ast.Starred(N(f.args.vararg.arg), ast.Load()))
                me = f.args.args[0].arg
                f.body = [ast.Return(ast.Call(ast.Attribute(N(me), g.name, ast.Load()), args, []))]
                out.append(g)
        c.body = out
        return c


class BranchHelper(Base):
    """Branches of an `if` that end with a return and use plain names become
    helper methods."""
    def visit_ClassDef(self, c):
        self.new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" \
                    and not has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.FunctionDef):
                self.f = f
                for k, s in enumerate(f.body):
                    if isinstance(s, ast.If):
                        self.split(s)
        c.body += self.new
        return c

    def split(self, s):
        if isinstance(s.body[-1], ast.Return) and not has(s, ast.Delete):
            params = {a.arg for a in self.f.args.args[1:]}
            used, bound = set(), set()
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name):
                        (used if isinstance(x.ctx, ast.Load) else bound).add(x.id)
            locals_ = params | {x.id for x in ast.walk(self.f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            need = sorted(n for n in (used & locals_) if n in params or n not in bound)
            inner = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, (ast.comprehension,)) for x in ast.walk(x.target) if isinstance(x, ast.Name)}
            need = [n for n in need if n not in inner or n in params]
            name = self.fresh("_part_" + self.f.name.strip("_"))
            g = ast.FunctionDef(name, ast.arguments([], [ast.arg("self")] + [ast.arg(n) for n in need], None, [], [], None, []), s.body, [])
            s.body = [ast.Return(ast.Call(ast.Attribute(N("self"), name, ast.Load()), [N(n) for n in need], []))]
            self.new.append(g)
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            self.split(s.orelse[0])


class Rename(Base):
    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.args} | ({f.args.vararg.arg} if f.args.vararg else set())
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        g = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc - g:
                x.id = x.id + "_r"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = x.name + "_r"
        return f


class Guard(Base):
    """Early validation split: `if a and b: X` (no else) -> nested ifs."""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return s


class Hoist(Base):
    """`type(lhs)` etc. held in a local first: `if type(x)...` -> t = ...; `if`"""
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)):
            t = self.fresh("cond")
            a = ast.Assign([S(t)], s.test)
            s.test = N(t)
            return [a, s]
        return s


class IndexLoop(Base):
    """for x in seq (a plain local name or attribute) -> for i in range(len(seq)): x = seq[i]"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name) and s.iter.id in ("items", "result", "strings", "rows", "args", "argList", "digits", "values", "argsList", "statements", "lines"):
            i = self.fresh("i")
            body = [ast.Assign([s.target], ast.Subscript(N(s.iter.id), N(i), ast.Load()))] + s.body
            return ast.For(S(i), ast.Call(N("range"), [ast.Call(N("len"), [N(s.iter.id)], [])], []), body, [])
        return s


class GenLoop(Base):
    """for x in X: yield e  <-> explicit iterator with next() in while True/try"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not has(s, ast.Continue, ast.Break):
            it = self.fresh("it")
            ok = self.fresh("x")
            return [ast.Assign([S(it)], ast.Call(N("iter"), [s.iter], [])),
                    ast.While(ast.Constant(True), [
                        ast.Try([ast.Assign([s.target], ast.Call(N("next"), [N(it)], []))],
                                [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], [])] + s.body, [])]
        return s


KINDS = dict(ifexp=IfExp, invert=Invert, temp=Temp, comploop=CompLoop, loopcomp=LoopComp, forwhile=ForWhile, enum=Enum,
             elsereturn=ElseReturn, returnelse=ReturnElse, demorgan=DeMorgan, typein=TypeIn, augassign=AugAssign,
             helper=Helper, branchhelper=BranchHelper, rename=Rename, guard=Guard, hoist=Hoist, indexloop=IndexLoop, genloop=GenLoop)


def main():
    kind, out = sys.argv[1:3]
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree(os.environ.get("SRC", "/repo"), out, ignore=shutil.ignore_patterns(".git"))
    for f in FILES:
        p = os.path.join(out, f)
        t = ast.parse(open(p).read())
        before = ast.unparse(t)
        t = ast.fix_missing_locations(KINDS[kind]().visit(t))
        after = ast.unparse(t)
        open(p, "w").write(after)
        print(f, sum(a != b for a, b in zip(before.splitlines(), after.splitlines())), len(after.splitlines()) - len(before.splitlines()))


if __name__ == "__main__":
    main()
