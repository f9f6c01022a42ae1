"""Names, definite assignment, attributes and arity: what every construct of the
source refers to has to exist.  Works on the syntax tree and the class model."""
from __future__ import annotations
import ast, builtins, collections, datetime, decimal, io, pathlib, re, symtable
import xml.etree.ElementTree as ET
from .values import *
from . import extern
from .stdlib import is_dataclass, is_named

BUILTIN_ATTRS = set()
for _t in (object, int, float, str, bytes, list, dict, tuple, set, frozenset, type, type(lambda: 0), type(iter([])), type((i for i in [])), BaseException, OSError, UnicodeDecodeError, type(None), range, slice, complex, bool, memoryview, type(len), collections.deque, collections.OrderedDict, collections.Counter, collections.ChainMap, collections.defaultdict, __import__("functools").partial, __import__("contextlib").ExitStack, __import__("types").SimpleNamespace, __import__("typing").NamedTuple("N", []), re.Pattern, re.Match, decimal.Decimal, datetime.datetime, datetime.date, datetime.timedelta, io.StringIO, io.BytesIO, pathlib.Path, ET.Element, ET.ElementTree):
    BUILTIN_ATTRS |= set(dir(_t))


def walk_own(node, into_lambda=True):
    """Nodes of a function body without nested functions and classes."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Lambda) and not into_lambda:
            continue
        todo.extend(ast.iter_child_nodes(n))


# --- names ------------------------------------------------------------------
def undefined_names(source):
    """(module, scope, name, line) of every global name that is not defined, and the number of names seen."""
    res, n = [], 0
    for m, src in source.srcs.items():
        top = symtable.symtable(src, m, "exec")
        defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        star = any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(source.trees[m]))
        todo = [top]
        lines = {}
        for x in ast.walk(source.trees[m]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                lines.setdefault(x.id, []).append(x.lineno)
            if isinstance(x, ast.Global):
                defined |= set(x.names)
        while todo:
            t = todo.pop()
            todo.extend(t.get_children())
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n += 1
                nm = s.get_name()
                if (s.is_global() and not (t is not top and (s.is_local() or s.is_parameter())) or t is top and not s.is_assigned()) and nm not in defined and not hasattr(builtins, nm) and nm not in ("__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__annotations__", "__class__") and not star:
                    if not lines.get(nm):
                        continue        # only in annotations that are strings
                    ln = [l for l in lines[nm] if l >= t.get_lineno()] or lines[nm]
                    res.append((m, t.get_name(), nm, ln[0]))
    return res, n


# --- definite assignment ----------------------------------------------------
class Flow:
    """Local variables that may be read before they are assigned."""
    DEAD = None

    def __init__(self, fn):
        self.fn, self.found, self.loads = fn, {}, 0
        out, self.locals = set(), set()
        for n in walk_own(fn, False):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
        for n in self.own_no_comp(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
        for n in walk_own(fn):          # := in comprehensions
            if isinstance(n, ast.NamedExpr):
                self.locals.add(n.target.id)
        self.locals -= out
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}

    def own_no_comp(self, fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def run(self):
        self.loops, self.tries = [], []
        self.block(self.fn.body, State(self.params))
        return self.found

    # states: State or None (unreachable)
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def use(self, e, st, bound=frozenset()):
        """Evaluate an expression; assignments by := are added."""
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in bound:
                self.loads += 1
                if e.id not in st.sure:
                    self.found.setdefault(e.id, e)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st, bound)
            st.sure.add(e.target.id)
            return
        if isinstance(e, ast.BoolOp):
            self.use(e.values[0], st, bound)
            s2 = st.copy()
            for u, v in zip(e.values, e.values[1:]):
                s2.assume(u, isinstance(e.op, ast.And))
                self.use(v, s2, bound)
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, st, bound)
            a, b = st.copy(), st.copy()
            a.assume(e.test, True), b.assume(e.test, False)
            self.use(e.body, a, bound)
            self.use(e.orelse, b, bound)
            st.sure |= a.sure & b.sure
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [d for d in e.args.kw_defaults if d]:
                self.use(d, st, bound)
            return                      # the body runs later
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            for i, g in enumerate(e.generators):
                self.use(g.iter, st, frozenset(b))
                b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.use(c, st, frozenset(b))
            s2 = st.copy()
            for f in ("elt", "key", "value"):
                if hasattr(e, f):
                    self.use(getattr(e, f), s2, frozenset(b))
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, st, bound)

    def assign(self, t, st):
        if isinstance(t, ast.Name):
            st.put(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, st)
        else:
            self.use(t, st)

    def bind(self, t, e, st):
        if isinstance(t, ast.Name):
            if isinstance(e, ast.Constant):
                st.consts[t.id] = e.value
            elif isinstance(e, (ast.List, ast.Tuple)) and nonempty(e) or isinstance(e, ast.Dict) and None not in e.keys and e.keys:
                st.consts[t.id] = FULL
            elif isinstance(e, ast.Name) and e.id in st.consts and e.id != t.id:
                st.consts[t.id] = st.consts[e.id]
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and len(t.elts) == len(e.elts):
            for x, y in zip(t.elts, e.elts):
                if isinstance(y, ast.Constant):
                    self.bind(x, y, st)

    def loop(self, s, st, once):
        """States at the end of the body, at its breaks and its continues."""
        start = st.copy()
        for i in range(6):
            if i == 5:
                start.forget(stored(s))
            self.loops.append(([], []))
            after = once(start.copy())
            br, cont = self.loops.pop()
            new = start
            for x in [after] + cont:
                new = join(new, x)
            if (new.sure, new.consts, new.under) == (start.sure, start.consts, start.under):
                break
            start = new
        return after, br, cont

    def stmt(self, s, st):
        if FULL in st.consts.values():
            # whatever is done with a list may empty it; the body of a statement is looked at on its own
            top = [s] if not hasattr(s, "body") else [getattr(s, f) for f in ("test", "iter", "subject") if hasattr(s, f)]
            alone = [x for x in top if isinstance(x, (ast.Name, ast.UnaryOp)) and not isinstance(s, (ast.For, ast.AsyncFor))]
            used = {n.id for x in top if x not in alone for n in ast.walk(x) if isinstance(n, ast.Name)}
            st.forget([v for v, c in st.consts.items() if c is FULL and v in used])
        if self.tries:
            for t in self.tries:
                t.append(st.copy())     # an exception may leave from here
        k = type(s).__name__
        if k in ("Expr", "Return", "Raise", "Assert"):
            for f in ("value", "exc", "cause", "test", "msg"):
                v = getattr(s, f, None)
                if isinstance(v, ast.AST) and f != "msg":
                    self.use(v, st)
            if k in ("Return", "Raise") or k == "Assert" and isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            if k == "Expr" and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "os._exit"):
                return None
            if k == "Assert":
                st.assume(s.test, True)
            return st
        if k == "Assign":
            self.use(s.value, st)
            for t in s.targets:
                self.assign(t, st)
                self.bind(t, s.value, st)
            return st
        if k == "AnnAssign":
            if s.value is not None:
                self.use(s.value, st)
                self.assign(s.target, st)
                self.bind(s.target, s.value, st)
            return st
        if k == "AugAssign":
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.use(s.value, st)
            self.assign(s.target, st)
            return st
        if k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st.sure.discard(t.id)
                else:
                    self.use(t, st)
            return st
        if k in ("FunctionDef", "AsyncFunctionDef", "ClassDef"):
            for d in s.decorator_list:
                self.use(d, st)
            st.put(s.name)
            return st
        if k in ("Import", "ImportFrom"):
            for a in s.names:
                st.put((a.asname or a.name).split(".")[0])
            return st
        if k == "If":
            self.use(s.test, st)
            a, b = st.copy(), st.copy()
            a.assume(s.test, True)
            b.assume(s.test, False)
            c = const(s.test)
            a = self.block(s.body, a) if c is not False else None
            b = self.block(s.orelse, b) if c is not True else None
            return join(a, b, s.test)
        if k == "While":
            c = const(s.test)
            first = known(s.test, st.consts)
            self.use(s.test, st)
            entry = st.copy()

            def once(a):
                a.assume(s.test, True)
                return self.block(s.body, a) if c is not False else None
            after, br, again = self.loop(s, st, once)
            end = None
            if c is not True:
                e = None if first is True else entry
                for x in [after] + again:
                    e = join(e, x)
                if e is not None:
                    e.assume(s.test, False)
                    end = self.block(s.orelse, e)
            for b in br:
                end = join(end, b)
            return end
        if k in ("For", "AsyncFor"):
            self.use(s.iter, st)
            def once(a):
                self.assign(s.target, a)
                return self.block(s.body, a)
            a, br, cont = self.loop(s, st, once)
            e = None if nonempty(s.iter) else st.copy()
            for c in [a] + cont:        # nonempty: at least one item for sure
                e = join(e, c)
            end = self.block(s.orelse, e) if e is not None else None
            for b in br:
                end = join(end, b)
            return end
        if k in ("Break", "Continue"):
            if self.loops:
                self.loops[-1][0 if k == "Break" else 1].append(st.copy())
            return None
        if k in ("With", "AsyncWith"):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, st)
            sup = any(isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).endswith("suppress") for i in s.items)
            old = st.copy()
            st = self.block(s.body, st)
            return join(st, old) if sup else st
        if k in ("Try", "TryStar"):
            self.tries.append([])
            pre = st.copy()
            body = self.block(s.body, st.copy())
            seen = self.tries.pop()
            exc = pre
            exc.forget(stored(s))
            for x in seen:
                exc = join(exc, x)
            if body is not None and s.orelse:
                body = self.block(s.orelse, body)
            ends = [body]
            for h in s.handlers:
                hs = exc.copy()
                if h.type is not None:
                    self.use(h.type, hs)
                if h.name:
                    hs.put(h.name)
                hs = self.block(h.body, hs)
                if hs is not None and h.name:
                    hs.sure.discard(h.name)
                ends.append(hs)
            end = None
            for e in ends:
                end = join(end, e)
            if s.finalbody:
                f = exc.copy()
                f = self.block(s.finalbody, f)
                if f is None:
                    return None
                if end is not None:
                    end.sure |= f.sure - exc.sure
            return end
        if k == "Match":
            self.use(s.subject, st)
            end, total = None, False
            for c in s.cases:
                a = st.copy()
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        a.put(n.name)
                    if isinstance(n, ast.MatchMapping) and n.rest:
                        a.put(n.rest)
                if c.guard is not None:
                    self.use(c.guard, a)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                end = join(end, self.block(c.body, a))
            return end if total else join(end, st)
        return st


def nonempty(e):
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(not isinstance(x, ast.Starred) for x in e.elts)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return bool(e.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and len(e.args) == 1:
        return isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, int) and e.args[0].value > 0
    return False


def const(e):
    return bool(e.value) if isinstance(e, ast.Constant) else None


class Full:
    """Stands for a list, tuple or dictionary with something in it."""
    def __eq__(self, other):
        return self is other

    def __bool__(self):
        return True

    __hash__ = None


FULL = Full()


class State:
    """Variables surely assigned, and those assigned if a condition holds."""

    def __init__(self, sure=(), under=None, consts=None):
        self.sure = set(sure)
        self.consts = dict(consts or {})    # variable -> constant it is bound to
        self.under = dict(under or {})  # text of a condition -> variables assigned if it is true

    def copy(self):
        return State(self.sure, {k: set(v) for k, v in self.under.items()}, self.consts)

    def forget(self, vs):
        for v in vs:
            self.consts.pop(v, None)
            for k in [k for k in self.under if v in names_in(k)]:
                del self.under[k]

    def put(self, v):
        self.sure.add(v)
        self.consts.pop(v, None)
        for k in [k for k in self.under if v in names_in(k)]:
            del self.under[k]

    def assume(self, test, true):
        neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
        if neg:
            test, true = test.operand, not true
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if true else ast.Or):
            for v in test.values:
                self.assume(v, true)
        for v in ast.walk(test):
            if isinstance(v, ast.NamedExpr) and (true or v is test):
                self.sure.add(v.target.id)
        self.sure |= self.under.get(key(test, true), set())


_names = {}


def names_in(k):
    if k not in _names:
        try:
            t = ast.parse("(" + k[1] + "\n)", mode="eval")
        except SyntaxError:
            t = ast.parse(k[1])         # a pattern or the like
        _names[k] = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
    return _names[k]


def key(test, true):
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}.get(type(test.ops[0]))
        if flip:
            test, true = ast.Compare(test.left, [flip()], test.comparators), not true
    return (true, ast.unparse(test))


def join(a, b, test=None):
    if a is None or b is None:
        r = a if b is None else b
        return r.copy() if r is not None else None
    r = State(a.sure & b.sure, {k: (v | a.sure) & (b.under[k] | b.sure) for k, v in a.under.items() if k in b.under}, {k: v for k, v in a.consts.items() if k in b.consts and type(b.consts[k]) is type(v) and b.consts[k] == v})
    for x, y in ((a, b), (b, a)):
        for v, c in y.consts.items():
            if v in r.consts:
                continue
            for k in ((not c, v), (c is not None, f"{v} is None"), (False, f"{v} == {c!r}"))[:2 if c is FULL else 3]:
                more = x.under.get(k, set()) | (x.sure - y.sure)
                if more:
                    r.under.setdefault(k, set()).update(more)
        for k, more in x.under.items():     # never true in the other state
            if any(contradicts(k, v, c) for v, c in y.consts.items() if c is not FULL):
                r.under.setdefault(k, set()).update(more)
    if test is not None:
        neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
        t = test.operand if neg else test
        for st, other, val in ((a, b, not neg), (b, a, neg)):
            more = st.sure - other.sure
            if more:
                r.under.setdefault(key(t, val), set()).update(more)
                if val and isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
                    pass
    return r


def contradicts(k, v, c):
    return k in ((not c, v), (c is not None, f"{v} is None"), (False, f"{v} == {c!r}"))


def known(test, consts):
    """Truth of a condition on variables bound to constants, None if unknown."""
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.Name) and test.id in consts:
        return bool(consts[test.id])
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = known(test.operand, consts)
        return None if r is None else not r
    if isinstance(test, ast.BoolOp):
        rs = [known(v, consts) for v in test.values]
        stop = isinstance(test.op, ast.Or)
        return stop if stop in rs else None if None in rs else not stop
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        vals = []
        for e in (test.left, test.comparators[0]):
            if isinstance(e, ast.Constant):
                vals.append(e.value)
            elif isinstance(e, ast.Name) and e.id in consts:
                vals.append(consts[e.id])
            else:
                return None
        l, r = vals
        if l is FULL or r is FULL:
            return None
        try:
            return {ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r, ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r}[type(test.ops[0])]()
        except TypeError:
            return None
    return None


def stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


# --- classes ----------------------------------------------------------------
class Members:
    """Attributes and signatures of the classes of the package."""

    def __init__(self, p):
        self.p = p
        self.classes = {}
        for m in p.modules.values():
            for n, v in m.env.items():
                if isinstance(v, Cls) and v.module is m:
                    self.classes[(m.name, v.name)] = v
        self.stores = set()             # attributes set on objects other than self
        self.own = {}
        self.attrtype = {}
        for c in self.classes.values():
            self.own[c] = set(c.ns)
        for m, q, node, cname in p.source.functions():
            me = self.self_name(node) if cname else None
            c = self.classes.get((m, cname)) if cname else None
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if c is not None and me and isinstance(n.value, ast.Name) and n.value.id == me:
                        self.own[c].add(n.attr)
                    else:
                        self.stores.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    self.stores.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else "*")
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and c is not None and isinstance(n.target.value, ast.Name) and n.target.value.id == me:
                    self.attrtype.setdefault((c, n.target.attr), n.annotation)
        for (m, n), c in self.classes.items():
            for st in c.node.body if getattr(c, "node", None) else []:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    self.attrtype.setdefault((c, st.target.id), st.annotation)
                    if is_dataclass(c) or is_named(c):
                        self.own[c].add(st.target.id)
            if is_named(c):
                self.own[c] |= {"_replace", "_asdict", "_fields"}
        self.infer()
        self.known = set(BUILTIN_ATTRS) | self.stores
        for s in self.own.values():
            self.known |= s

    def infer(self):
        """Types of attributes bound only to annotated parameters."""
        names = {n for _, n in self.classes}
        got = {}                        # attribute -> class -> annotations
        for m, q, node, cname in self.p.source.functions():
            c = self.classes.get((m, cname)) if cname else None
            me = self.self_name(node) if c is not None else None
            anns = {x.arg: x.annotation for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
            stored = {n.id for n in walk_own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in walk_own(node):
                ts, v = [], None
                if isinstance(n, ast.Assign):
                    ts, v = n.targets, n.value
                elif isinstance(n, (ast.AugAssign, ast.For, ast.With, ast.NamedExpr)):
                    ts = [x for x in ast.walk(n.target if not isinstance(n, ast.With) else n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)]
                for t in ts:
                    for x in ast.walk(t):
                        if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)):
                            continue
                        own = isinstance(x.value, ast.Name) and x.value.id == me and me is not None
                        a = anns.get(v.id) if x is t and isinstance(v, ast.Name) and v.id not in stored else None
                        if isinstance(v, ast.Constant) and v.value is None and x is t:
                            a = v
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and x is t and v.func.id in names:
                            a = v.func
                        got.setdefault(x.attr, []).append((c if own else None, a))
        for attr, uses in got.items():
            for c in {c for c, _ in uses if c is not None}:
                if (c, attr) in self.attrtype:
                    continue
                mine = [a for k, a in uses if k is None or k is c or c in k.mro or k in c.mro]
                texts = {ast.unparse(a): a for a in mine if a is not None and not (isinstance(a, ast.Constant) and a.value is None)}
                if all(a is not None for a in mine) and texts:
                    t = None
                    for a in texts.values():
                        t = a if t is None else ast.BinOp(t, ast.BitOr(), a)
                    self.attrtype[(c, attr)] = t

    @staticmethod
    def self_name(node):
        if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list):
            return None
        a = node.args.posonlyargs + node.args.args
        return a[0].arg if a else None

    def opaque(self, c):
        return any(isinstance(b, Ext) and extern.ext_class(b.name) is None and not b.name.startswith(("typing.", "abc.", "enum.")) for b in c.mro) or "__getattr__" in {n for b in c.mro if isinstance(b, Cls) for n in b.ns}

    def has(self, c, attr):
        """Does an object of exactly this class have the attribute?"""
        if attr in self.stores or "*" in self.stores or self.opaque(c):
            return True
        for b in c.mro:
            if isinstance(b, Cls):
                if attr in self.own.get(b, b.ns):
                    return True
            elif isinstance(b, Ext):
                e = extern.ext_class(b.name)
                if e is not None and hasattr(e, attr):
                    return True
        if c.enum and attr in ("name", "value", "_value_", "_name_"):
            return True
        return hasattr(object, attr) or attr in ("__dict__", "__annotations__", "__name__", "__module__", "__qualname__", "__mro__", "__subclasses__")

    def somewhere(self, c, attr):
        return any(self.has(k, attr) for k in self.p.subclasses(c))

    def leaves(self, c):
        return [k for k in self.p.subclasses(c) if not k.subs]

# --- types of receivers -----------------------------------------------------
UNKNOWN = None


class Types:
    """Classes an expression may have, as far as annotations and constructors tell."""

    def __init__(self, mem, module, cls, fn, outer=None):
        self.mem, self.p, self.m, self.cls, self.fn = mem, mem.p, module, cls, fn
        self.me = mem.self_name(fn) if cls is not None and not isinstance(fn, ast.Lambda) else None
        self.busy = set()
        self.defs = {}                  # variable -> list of expressions (None: something else)
        a = fn.args
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation}
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.narrowed = {}
        for n in walk_own(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.ann.setdefault(n.target.id, n.annotation)
                self.params.add(n.target.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(("item", n.iter) if x is n.target else None)
            elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(n.value if isinstance(n, ast.NamedExpr) else None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    for x in ast.walk(i.optional_vars) if i.optional_vars else []:
                        if isinstance(x, ast.Name):
                            self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.defs.setdefault(n.name, []).append(("exc", n.type))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
                if isinstance(n.args[0], ast.Name):
                    cs = self.classes_of(n.args[1])
                    self.narrowed.setdefault(n.args[0].id, []).append(cs)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar, ast.MatchMapping, ast.Lambda)):
                for x in ast.walk(n):
                    for f in ("name", "rest"):
                        if isinstance(getattr(x, f, None), str):
                            self.defs.setdefault(getattr(x, f), []).append(None)
                    if isinstance(x, ast.arg):
                        self.defs.setdefault(x.arg, []).append(None)
        self.unbound_comp = {x.id for n in walk_own(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}

    def static(self, e):
        """Class, function or module an expression refers to by name."""
        if isinstance(e, ast.Name):
            if e.id in self.params or e.id in self.defs:
                return None
            v = self.m.env.get(e.id)
            try:
                return self.p.boot.resolve_import(v) if type(v).__name__ == "ImportRef" else v
            except Exception:
                return None
        if isinstance(e, ast.Attribute):
            b = self.static(e.value)
            if isinstance(b, Mod):
                v = b.env.get(e.attr)
                return self.p.boot.resolve_import(v) if type(v).__name__ == "ImportRef" else v
            if isinstance(b, Ext):
                return Ext(b.name + "." + e.attr)
        return None

    def classes_of(self, e):
        es = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        res = set()
        for x in es:
            v = self.static(x)
            if not isinstance(v, Cls):
                return UNKNOWN
            res.add(v)
        return res

    def annotation(self, a, env=None):
        """Classes an annotation stands for; None is left out."""
        m = env or self.m
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return UNKNOWN
        if isinstance(a, ast.Constant) and a.value is None:
            return set()
        if isinstance(a, (ast.Name, ast.Attribute)):
            v = m.env.get(a.id) if isinstance(a, ast.Name) else None
            if v is None and isinstance(a, ast.Name):
                c = [k for (mm, n), k in self.mem.classes.items() if n == a.id]
                if len(c) == 1:
                    return {c[0]}
                return UNKNOWN
            if type(v).__name__ == "ImportRef":
                try:
                    v = self.p.boot.resolve_import(v)
                except Exception:
                    return UNKNOWN
            return {v} if isinstance(v, Cls) else UNKNOWN
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", "")
            if h == "Optional":
                return self.annotation(a.slice, m)
            if h == "Union":
                return self.union([self.annotation(x, m) for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice])])
            if h in ("Final", "Annotated", "ClassVar"):
                return self.annotation(a.slice.elts[0] if isinstance(a.slice, ast.Tuple) else a.slice, m)
            return UNKNOWN
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.union([self.annotation(a.left, m), self.annotation(a.right, m)])
        return UNKNOWN

    def items(self, a, m):
        """Classes of the items of an annotated sequence."""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return UNKNOWN
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", "")
            if h in ("list", "List", "Sequence", "set", "Iterator", "Iterable", "MutableSet", "frozenset", "MutableSequence"):
                return self.annotation(a.slice, m)
            if h == "Optional":
                return self.items(a.slice, m)
        return UNKNOWN

    @staticmethod
    def union(ts):
        res = set()
        for t in ts:
            if t is UNKNOWN:
                return UNKNOWN
            res |= t
        return res

    def module_of(self, c):
        return c.module

    def of(self, e):
        """Classes of the value of an expression, UNKNOWN if it may be something else."""
        k = id(e)
        if k in self.busy:
            return UNKNOWN
        self.busy.add(k)
        try:
            return self._of(e)
        finally:
            self.busy.discard(k)

    def var(self, n):
        if n == self.me:
            return {self.cls}
        if n in self.ann:
            t = self.annotation(self.ann[n])
            if t is UNKNOWN:
                return UNKNOWN
            for d in self.defs.get(n, []):
                t = self.union([t, self.dtype(d)])
        elif n in self.params or n not in self.defs:
            return UNKNOWN
        else:
            t = self.union([self.dtype(d) for d in self.defs[n]])
        for c in self.narrowed.get(n, []):
            t = self.union([t, c])
        return t

    def dtype(self, d):
        if d is None:
            return UNKNOWN
        if isinstance(d, tuple):
            if d[0] == "exc":
                return self.classes_of(d[1]) if d[1] is not None else UNKNOWN
            return self.elem(d[1])
        return self.of(d)

    def elem(self, e):
        if isinstance(e, ast.Attribute):
            r = self.of(e.value)
            if r:
                ts = []
                for c in r:
                    a, m = self.attr_ann(c, e.attr)
                    ts.append(self.items(a, m) if a is not None else UNKNOWN)
                return self.union(ts)
        if isinstance(e, ast.Name) and e.id in self.ann and not self.defs.get(e.id):
            return self.items(self.ann[e.id], self.m)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "values" and not e.args:
            a, m = self.ann_of(e.func.value)
            h = a.value.id if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) else ""
            if h in ("dict", "Dict"):
                return self.inner(a, m)
        if isinstance(e, ast.Call):
            for f in self.targets(e):
                if isinstance(f, Fn) and f.node.returns is not None:
                    return self.items(f.node.returns, f.module)
        return UNKNOWN

    def attr_ann(self, c, attr):
        for k in list(c.mro) + self.p.subclasses(c, strict=True):
            if isinstance(k, Cls):
                if (k, attr) in self.mem.attrtype:
                    return self.mem.attrtype[(k, attr)], k.module
                v = k.ns.get(attr)
                if isinstance(v, Prop) and isinstance(v.getter, Fn):
                    return v.getter.node.returns, k.module
        return None, None

    def targets(self, call):
        """Functions a call may run (of package classes), [] if not known."""
        f = call.func
        v = self.static(f)
        if isinstance(v, (Fn, Cls)):
            return [v]
        if isinstance(f, ast.Attribute):
            r = self.of(f.value)
            if r:
                res = []
                for c in r:
                    g = self.p.find(c, f.attr)
                    if g is None:
                        g = next((x for x in (self.p.find(k, f.attr) for k in self.p.subclasses(c)) if x), None)
                    if g is None:
                        return []
                    res.append(unwrap(g[1]))
                return res
            b = self.static(f.value)
            if isinstance(b, Cls):
                g = self.p.find(b, f.attr)
                return [unwrap(g[1])] if g and isinstance(unwrap(g[1]), Fn) else []
        return []

    def ann_of(self, e, depth=0):
        """(annotation, module) of the value of an expression, (None, None) if there is none."""
        none = None, None
        if depth > 4:
            return none
        if isinstance(e, ast.Name):
            ds = self.defs.get(e.id, [])
            if e.id in self.ann:
                return (self.ann[e.id], self.m) if not ds or e.id not in {x.arg for x in ast.walk(self.fn.args) if isinstance(x, ast.arg)} else none
            if len(ds) == 1 and e.id not in self.params and isinstance(ds[0], ast.AST):
                return self.ann_of(ds[0], depth + 1)
        elif isinstance(e, ast.Attribute):
            r = self.of(e.value)
            if r and len(r) == 1:
                return self.attr_ann(next(iter(r)), e.attr)
        elif isinstance(e, ast.Call):
            ts = self.targets(e)
            if len(ts) == 1 and isinstance(ts[0], Fn) and isinstance(ts[0].node, ast.FunctionDef):
                return ts[0].node.returns, ts[0].module
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("copy",):
                return self.ann_of(e.func.value, depth + 1)
        return none

    def inner(self, a, m, index=None):
        """Classes of the values of an annotated mapping or the items of a sequence."""
        if not isinstance(a, ast.Subscript):
            return UNKNOWN
        h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", "")
        if h == "Optional":
            return self.inner(a.slice, m, index)
        if h in ("dict", "Dict", "Mapping", "MutableMapping") and isinstance(a.slice, ast.Tuple):
            return self.annotation(a.slice.elts[1], m)
        if h in ("tuple", "Tuple") and isinstance(a.slice, ast.Tuple):
            i = index.value if isinstance(index, ast.Constant) and isinstance(index.value, int) else None
            return self.annotation(a.slice.elts[i], m) if i is not None and -len(a.slice.elts) <= i < len(a.slice.elts) and not any(isinstance(x, ast.Constant) and x.value is ... for x in a.slice.elts) else UNKNOWN
        if isinstance(index, ast.Slice):
            return UNKNOWN
        return self.items(a, m)

    def _of(self, e):
        if isinstance(e, ast.Subscript):
            a, m = self.ann_of(e.value)
            return self.inner(a, m, e.slice) if a is not None else UNKNOWN
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args:
            a, m = self.ann_of(e.func.value)
            if isinstance(a, ast.Subscript) and (a.value.id if isinstance(a.value, ast.Name) else "") in ("dict", "Dict"):
                return self.union([self.inner(a, m)] + [self.of(x) for x in e.args[1:]])
        if isinstance(e, ast.Name):
            return self.var(e.id)
        if isinstance(e, ast.Constant):
            return set() if e.value is None else UNKNOWN
        if isinstance(e, ast.IfExp):
            return self.union([self.of(e.body), self.of(e.orelse)])
        if isinstance(e, ast.BoolOp):
            return self.union([self.of(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
                return self.annotation(e.args[0])
            ts = self.targets(e)
            if not ts:
                return UNKNOWN
            res = []
            for f in ts:
                if isinstance(f, Cls):
                    res.append({f})
                elif isinstance(f, Fn) and isinstance(f.node, (ast.FunctionDef,)) and f.node.returns is not None:
                    res.append(self.annotation(f.node.returns, f.module))
                else:
                    return UNKNOWN
            return self.union(res)
        if isinstance(e, ast.Attribute):
            r = self.of(e.value)
            if not r:
                return UNKNOWN
            ts = []
            for c in r:
                a, m = self.attr_ann(c, e.attr)
                ts.append(self.annotation(a, m) if a is not None else UNKNOWN)
            return self.union(ts)
        return UNKNOWN


def unwrap(v):
    while type(v).__name__ in ("Static", "ClassM"):
        v = v.fn
    if type(v).__name__ == "Prop":
        return v
    return v


def bind_call(node, call, skip):
    """Why the arguments of a call do not fit the parameters, or None."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    nodef = len(a.posonlyargs + a.args) - len(a.defaults)
    if len(call.args) > len(pos) and a.vararg is None:
        return f"{len(call.args)} positional arguments for {len(pos)} parameters"
    given = set(pos[:len(call.args)])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return f"two values of {k.arg}"
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None or k.arg in [x.arg for x in a.posonlyargs]:
            return f"no parameter {k.arg}"
        given.add(k.arg)
    need = [x.arg for x in (a.posonlyargs + a.args)[:nodef]][skip:] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [n for n in need if n not in given]
    return f"no value of {', '.join(miss)}" if miss else None
