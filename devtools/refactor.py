"""Behaviour-preserving rewritings of the package, to see that the checks stay quiet.

  refactor.py KIND DIR    copies /repo to DIR and rewrites it there"""
import ast, copy, pathlib, shutil, subprocess, sys
N = [0]


def fresh(p):
    N[0] += 1
    return f"{p}_{N[0]}"


def name(i, st=False):
    return ast.Name(i, ast.Store() if st else ast.Load())


class Stmts(ast.NodeTransformer):
    """Rewrites lists of statements."""

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for i, s in enumerate(b):
                    out += self.one(s, n)
                setattr(n, f, self.many(out, n))
        return n

    def one(self, s, parent):
        return [s]

    def many(self, b, parent):
        return b


class Ret(Stmts):
    def one(self, s, parent):
        if isinstance(s, ast.Return) and s.value is not None:
            v = fresh("_rv")
            return [ast.Assign([name(v, True)], s.value), ast.Return(name(v))]
        return [s]


class SwapIf(Stmts):
    def one(self, s, parent):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


def has(n, *ts):
    return any(isinstance(x, ts) for x in ast.walk(n))


class Comp(Stmts):
    """Comprehensions as loops."""

    def one(self, s, parent):
        if isinstance(parent, (ast.ClassDef, ast.Module)):
            return [s]
        c = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        if isinstance(c, (ast.ListComp, ast.DictComp, ast.SetComp)) and not has(c.generators[0].iter, ast.NamedExpr):
            v = fresh("_acc")
            c = copy.deepcopy(c)
            ren = {x.id: fresh("_c") for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            inner = [x for x in ast.walk(c) if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)) and x is not c]
            if inner:
                return [s]
            for x in ast.walk(c):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
            if isinstance(c, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [c.elt], []))
            elif isinstance(c, ast.SetComp):
                init, add = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(v), "add", ast.Load()), [c.elt], []))
            else:
                init, add = ast.Dict([], []), ast.Assign([ast.Subscript(name(v), c.key, ast.Store())], c.value)
            body = [add]
            for g in reversed(c.generators):
                for t in reversed(g.ifs):
                    body = [ast.If(t, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = name(v)
            return [ast.Assign([name(v, True)], init)] + body + [s]
        return [s]


class ForWhile(Stmts):
    off = 0

    def visit_FunctionDef(self, n):
        own = any(isinstance(x, ast.Name) and x.id == "next" and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
        self.off += own
        self.generic_visit(n)
        self.off -= own
        return n

    def one(self, s, parent):
        if isinstance(s, ast.For) and not s.orelse and not self.off and not isinstance(parent, ast.Module):
            v = fresh("_it")
            nxt = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(v)], []))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [ast.Assign([name(v, True)], ast.Call(name("iter"), [s.iter], [])), ast.While(ast.Constant(True), [nxt] + s.body, [])]
        return [s]


class NestAnd(Stmts):
    def one(self, s, parent):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b
        return [s]


def ends(b):
    l = b[-1]
    return isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(l, ast.If) and l.orelse and ends(l.body) and ends(l.orelse)


class ElseAfter(Stmts):
    """if c: return x; rest  ->  if c: return x else: rest"""

    def many(self, b, parent):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b) and not isinstance(parent, (ast.Module, ast.ClassDef)):
                s.orelse = self.many(b[i + 1:], parent)
                return b[:i + 1]
        return b


class DropElse(Stmts):
    """if c: return x else: rest  ->  if c: return x; rest"""

    def one(self, s, parent):
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and not isinstance(parent, ast.Module):
            rest = s.orelse
            s.orelse = []
            return [s] + rest
        return [s]


class Ternary(Stmts):
    def one(self, s, parent):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp) and not isinstance(parent, (ast.Module, ast.ClassDef)):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]


class Fstr(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None and any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return n
                spec = "".join(x.value for x in v.format_spec.values) if v.format_spec is not None else ""
                fmt += "{" + ("!" + chr(v.conversion) if v.conversion > 0 else "") + (":" + spec if spec else "") + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Fcat(ast.NodeTransformer):
    """f-strings as concatenations"""

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion > 0 and v.conversion != 115) for v in n.values) or not n.values:
            return n
        e = None
        for v in n.values:
            x = v if isinstance(v, ast.Constant) else ast.Call(name("str"), [v.value], [])
            e = x if e is None else ast.BinOp(e, ast.Add(), x)
        return e


class InEq(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and isinstance(n.left, (ast.Name, ast.Attribute)) and n.comparators[0].elts:
            neg = isinstance(n.ops[0], ast.NotIn)
            return ast.BoolOp(ast.And() if neg else ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.NotEq() if neg else ast.Eq()], [c]) for c in n.comparators[0].elts])
        return n


class Demorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Extract(ast.NodeTransformer):
    """The body of every method and function in a helper."""

    def fix(self, body, meth):
        out = []
        for s in body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name.startswith("__") or s.name == "content_type" or has(s, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global):
                continue
            a = s.args
            if a.vararg or a.kwarg or a.kwonlyargs:
                continue
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            rest = s.body[len(doc):]
            if len(rest) < 2:
                continue
            h = copy.deepcopy(s)
            h.name = "_" + s.name.strip("_") + "_body"
            h.args.defaults = []
            h.body = rest
            ps = [x.arg for x in a.posonlyargs + a.args]
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(s)) and not meth:
                continue
            if meth:
                f = ast.Attribute(name(ps[0]), h.name, ast.Load())
                h.name = f.attr = f"_{meth}_{s.name.strip('_')}_body"
                call = ast.Call(f, [name(p) for p in ps[1:]], [])
            else:
                call = ast.Call(name(h.name), [name(p) for p in ps], [])
            s.body = doc + [ast.Return(call)]
            out.append(h)
        return out

    def visit_ClassDef(self, n):
        n.body = self.fix(n.body, n.name.lower())
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body, None)
        return n


class Rename(ast.NodeTransformer):
    """New names of local variables."""

    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not n]
        if inner or has(n, ast.Global, ast.Nonlocal):
            return n
        params = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        loc = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        ren = {v: v + "_loc" for v in loc}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
        return n


class Temps(Stmts):
    """Arguments of calls in statements put in variables first."""

    def one(self, s, parent):
        if isinstance(parent, (ast.Module, ast.ClassDef)):
            return [s]
        c = s.value if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) else None
        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and not c.keywords and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in c.args) and not (isinstance(c.func, ast.Name) and c.func.id == "super"):
            if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, ast.Name):
                return [s]
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Constant, ast.Name, ast.Lambda)):
                    continue
                v = fresh("_arg")
                pre.append(ast.Assign([name(v, True)], a))
                c.args[i] = name(v)
            return pre + [s]
        return [s]


class Chain(Stmts):
    """elif as nested else: if, lists as tuples in for, += as assignment."""

    def one(self, s, parent):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and not isinstance(s.value, (ast.List, ast.Name, ast.ListComp, ast.Attribute, ast.Call)):
            return [ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))]
        return [s]


KINDS = {c.__name__.lower(): c for c in (Ret, SwapIf, Comp, ForWhile, NestAnd, ElseAfter, DropElse, Ternary, Fstr, Fcat, InEq, Demorgan, Extract, Rename, Temps, Chain)}


def main(kind, d):
    d = pathlib.Path(d)
    if d.exists():
        shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    for f in sorted((d / "yangson").glob("*.py")):
        t = ast.parse(f.read_text())
        for k in kind.split("+"):
            t = ast.fix_missing_locations(KINDS[k]().visit(t))
        f.write_text(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
