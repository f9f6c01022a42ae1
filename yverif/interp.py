"""Path-sensitive abstract interpreter for the Python subset yangson is written in.

Every unknown branch condition is an uninterpreted atom; both outcomes are
followed, and the same atom gets the same outcome on one path (correlated
branches).  There is no solver and no program execution: builtins are
transfer functions, repository functions are inlined up to a stated bound.
"""
from __future__ import annotations
import ast
import os
import time
import builtins
import importlib
import math
from decimal import Decimal
import decimal

from .values import *
from .model import Source, c3, same_cls, AnalysisBroken, PKG
from . import extern, stdlib


class AbsRaise(Exception):
    def __init__(self, exc, loc):
        super().__init__()
        self.exc = exc
        self.loc = loc


class Cut(Exception):
    """Path abandoned at an analysis bound."""


class Endless(Cut):
    """A loop or recursion without undecided conditions that goes on and on."""

    def __init__(self, what, loc, fn):
        super().__init__(what)
        self.loc, self.fn = loc, fn


ROUNDS = 5000       # decided iterations that are taken for an endless loop


class Unsupported(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Found(Exception):
    pass


class _Through(BaseException):
    """A return, break or continue passing through a generator used as a context manager."""
    def __init__(self, e, who):
        self.e = e
        self.who = who


LAZY = {"builtins.any", "builtins.all", "builtins.next"}


class Env:
    __slots__ = ("vars", "parent", "locals", "module", "nonlocals")

    def __init__(self, parent, module, locals_=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.nonlocals = ()


class Frame:
    __slots__ = ("fn", "env", "cls", "self_", "node", "yields", "exc", "tl", "hook")

    def __init__(self, fn, env, cls, self_):
        self.fn = fn
        self.env = env
        self.cls = cls
        self.self_ = self_
        self.node = fn.node if fn else None
        self.yields = []
        self.exc = None
        self.hook = None
        self.tl = 0         # decisions made before the call


class Event:
    __slots__ = ("kind", "data", "loc", "stack")

    def __init__(self, kind, data, loc, stack):
        self.kind = kind
        self.data = data
        self.loc = loc
        self.stack = stack

    def __repr__(self):
        return f"{self.kind}{self.data} at {fmt_loc(self.loc)}"


def fmt_loc(loc):
    return f"{loc[0]}:{loc[2]} {loc[1]}"


def collect_locals(fnode):
    names = set()
    nonl = set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                names.add(n.rest)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for st in body:
        walk(st)
    return names - nonl


def has_yield(fnode):
    if isinstance(fnode, ast.Lambda):
        return False
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


PYTYPE = {"none": type(None), "bool": bool, "int": int, "float": float, "Decimal": Decimal,
          "str": str, "bytes": bytes, "list": list, "dict": dict, "tuple": tuple, "set": set}

NUM = frozenset({"bool", "int", "float", "Decimal"})


class Program:
    """Modules evaluated once at the top level: classes, functions, tables."""

    def __init__(self, repo=None):
        self.source = Source(repo)
        self.modules = {}
        for n, t in self.source.trees.items():
            self.modules[n] = Mod(n, t, self.source.paths[n], self.source.srcs[n])
        self.visited = set()
        self.gens = None
        self.raised = set()
        self.deadline = None
        self.stmts = set()
        self._load()

    def _load(self):
        I = Interp(self, [])
        I.loading = True
        self.boot = I
        for n in sorted(self.modules):
            m = self.modules[n]
            if n.endswith("__main__"):
                pass
            I.exec_module(m)
        self.classes = {}
        for m in self.modules.values():
            for k, v in list(m.env.items()):
                if isinstance(v, Cls) and v.module is m:
                    self.classes.setdefault(v.name, v)
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, Cls):
                    b.subs.append(c)

    def generators(self):
        """Names of the generator functions of the package."""
        if self.gens is None:
            self.gens = {n.name for t in self.source.trees.values() for n in ast.walk(t)
                         if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and has_yield(n)}
        return self.gens

    def reload(self):
        for m in self.modules.values():
            m.env = {}
            m.done = False
        self._load()

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found in {PKG}")
        return c

    def has(self, cname, attr):
        return self.find(self.cls(cname), attr) is not None

    def find(self, cls, attr):
        for c in cls.mro:
            if isinstance(c, Cls) and attr in c.ns:
                return c, c.ns[attr]
        return None

    def method(self, cname, attr):
        r = self.find(self.cls(cname), attr)
        if r is None:
            raise AnalysisBroken(f"method {cname}.{attr} not found")
        return r[1]

    def func(self, mod, name):
        m = self.modules.get(f"{PKG}.{mod}")
        v = m.env.get(name) if m else None
        if v is None:
            raise AnalysisBroken(f"function {mod}.{name} not found")
        return v

    def subclasses(self, cls, strict=False):
        res = [] if strict else [cls]
        todo = list(cls.subs)
        while todo:
            c = todo.pop(0)
            if c not in res:
                res.append(c)
                todo.extend(c.subs)
        return res

    def issub(self, c, d):
        if isinstance(c, Cls):
            return any(same_cls(x, d) or (isinstance(x, Ext) and isinstance(d, Ext) and extern.ext_issub(x.name, d.name))
                       for x in c.mro)
        if isinstance(c, Ext) and isinstance(d, Ext):
            return extern.ext_issub(c.name, d.name)
        return False


class Config:
    iter_max = 2        # items in an unknown iterable: 0..iter_max
    while_max = 3       # undecided iterations of one while loop
    steps = 60000       # statements per path
    depth = 150
    reccut = True
    rec = 24            # activations of one function on the stack
    strict = False      # builtin operations on symbols of limited kind may raise
    inline = True

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)


class Interp:
    setorder = 0             # iteration order of sets
    setsites = set()         # where a set of several elements was iterated

    def __init__(self, program, prefix, config=None):
        self.p = program
        self.prefix = prefix
        self.trace = []          # [choice, n, key]
        self.assume = {}
        self.kindmap = {}
        self.clsmap = {}
        self.rels = {}
        self.events = []
        self.stack = []
        self.stubs = {}
        self.stubfns = {}
        self.counter = 0
        self.nsteps = 0
        self.cfg = config or Config()
        self.loading = False
        self.ctx = None
        self.on_call = None
        self.called = []
        self.item_hook = None
        self.global_mutated = False
        self.extstub = {}
        self.extconst = {}
        self.xlog = []

    # ---- decisions -------------------------------------------------------
    def decide(self, key, n=2):
        if key in self.assume:
            return self.assume[key]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append([c, n, key])
        self.assume[key] = c
        return c

    def fresh_id(self, base="v"):
        self.counter += 1
        return f"{base}#{self.counter}"

    def branch(self, key):
        """Boolean atom; True is explored first."""
        return self.decide(key, 2) == 0

    def loc(self, node=None):
        if self.stack:
            f = self.stack[-1]
            n = node if node is not None else f.node
            return (f.fn.module.path, f.fn.qual, getattr(n, "lineno", 0))
        return ("<scenario>", "", 0)

    def event(self, kind, *data, node=None):
        e = Event(kind, data, self.loc(node), tuple(f.fn.qual for f in self.stack))
        self.events.append(e)
        return e

    # ---- raising ---------------------------------------------------------
    def raise_ext(self, name, *args, node=None):
        exc = Obj(Ext(name), self.fresh_id("exc"), {"args": Lst("tuple", list(args))})
        self.raise_obj(exc, node)

    def raise_obj(self, exc, node=None):
        if isinstance(node, ast.Raise):
            self.p.raised.add(self.loc(node))
        raise AbsRaise(exc, self.loc(node))

    # ---- kinds -----------------------------------------------------------
    def kinds(self, v):
        if isinstance(v, Sym):
            return self.kindmap.get(v.term, v.kinds)
        if isinstance(v, K):
            x = v.val
            if x is None:
                return frozenset({"none"})
            for k, t in PYTYPE.items():
                if type(x) is t:
                    return frozenset({k})
            return frozenset({"obj"})
        if isinstance(v, Lst):
            return frozenset({v.kind if v.kind in PYTYPE else "obj"})
        if isinstance(v, Dct):
            return frozenset({"dict"})
        return frozenset({"obj"})

    def strict(self, sym):
        return sym.kinds != ALL_KINDS

    def narrow(self, sym, sub, tag):
        """Decide whether the symbol's kind lies in `sub`; refines the path."""
        ks = self.kinds(sym)
        yes = ks & sub
        no = ks - sub
        if not no:
            return True
        if not yes:
            return False
        r = self.branch(("kind", sym.term, tag, tuple(sorted(yes))))
        self.kindmap[sym.term] = yes if r else no
        return r

    def isinstance_(self, v, c):
        if isinstance(c, Lst):
            for x in c.items:
                if self.isinstance_(v, x):
                    return True
            return False
        if isinstance(c, (K, Dct)) or isinstance(c, Obj):
            self.raise_ext("builtins.TypeError")
        if isinstance(c, Ext):
            ks = extern.CLASS_KINDS.get(c.name)
            if isinstance(v, Obj):
                if v.exact or self.p.issub(v.cls, c):
                    return self.p.issub(v.cls, c)
                if v.payload is not None:
                    return v.payload.kind == c.name.split(".")[-1] if isinstance(v.payload, Lst) else c.name == "builtins.dict"
                return False
            if isinstance(v, Lst):
                return extern.ext_issub({"iter": "collections.abc.Iterator", "deque": "collections.deque"}.get(v.kind, "builtins." + v.kind), c.name)
            if isinstance(v, Dct):
                return extern.ext_issub("builtins.dict", c.name)
            if isinstance(v, K):
                if c.name == "builtins.object":
                    return True
                if ks is not None:
                    return bool(self.kinds(v) & ks)
                return False
            if isinstance(v, Sym):
                if c.name == "builtins.object":
                    return True
                if ks is None:
                    return self.branch(("isinst", v.term, c.name))
                return self.narrow(v, ks, c.name)
            if c.name == "builtins.type":
                return isinstance(v, Cls) or isinstance(v, Ext)
            return False
        if isinstance(c, Cls):
            if isinstance(v, Obj):
                if self.p.issub(v.cls, c):
                    return True
                if v.exact or not isinstance(v.cls, Cls):
                    return False
                if any(self.p.issub(c2, v.cls) for c2 in self.p.subclasses(c)) is False:
                    return False
                return self.cls_decide(v, c)
            if isinstance(v, Sym):
                ks = self.kinds(v)
                if "obj" not in ks and not (ks & {"list", "dict"}):
                    return False
                if "obj" not in ks:
                    return False
                known = self.clsmap.get(v.term)
                if known is not None:
                    for d in known[0]:
                        if self.p.issub(d, c):
                            return True
                    for d in known[1]:
                        if self.p.issub(c, d):
                            return False
                r = self.branch(("isinst", v.term, c.name))
                pos, neg = known or ((), ())
                self.clsmap[v.term] = (pos + (c,), neg) if r else (pos, neg + (c,))
                if r:
                    self.kindmap[v.term] = frozenset({"obj"})
                return r
            return False
        if isinstance(c, Sym):
            return self.branch(("isinst", term_of(v), c.term))
        raise Unsupported(f"isinstance second argument {c!r}")

    def cls_decide(self, v, c):
        if any(self.p.issub(d, c) for d in v.isin):
            return True
        if any(self.p.issub(c, d) for d in v.notin):
            return False
        r = self.branch(("isinst", term_of(v), c.name))
        (v.isin if r else v.notin).add(c)
        return r

    # ---- truth -----------------------------------------------------------
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, K):
            return bool(v.val)
        if isinstance(v, Lst):
            return bool(v.items)
        if isinstance(v, Dct):
            if v.entries:
                return True
            if v.rest:
                return self.branch(("nonempty", v.name))
            return False
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                for dn in ("__bool__", "__len__"):
                    r = self.p.find(v.cls, dn)
                    if r:
                        x = self.call(Bound(r[1], v), [])
                        return self.truth(x)
            if v.payload is not None:
                return self.truth(v.payload)
            return True
        if isinstance(v, Sym):
            ks = self.kinds(v)
            if "none" in ks and ks != ALL_KINDS:
                if ks == {"none"}:
                    return False
                if not (ks - {"none", "obj"}):
                    return not self.narrow(v, frozenset({"none"}), "none")
            if ks == {"obj"}:
                return True
            t = v.term
            neg = False
            while isinstance(t, tuple) and len(t) == 2 and t[0] == "not":
                t = t[1]
                neg = not neg
            # truthiness, length and emptiness are one atom
            if isinstance(t, tuple) and len(t) == 2 and t[0] == "len":
                r = not self.is_empty(t[1])
            elif ks & {"str", "list", "dict", "tuple", "set", "bytes"} and not ks & NUM and "none" not in ks:
                r = not self.is_empty(t)
            elif isinstance(t, tuple) and t[0] == "cat" and any(x[0] == "k" and x[2] != "''" for x in t[1:]):
                r = True
            else:
                r = self.branch(("truth", t))
            if r and "none" in ks:
                self.kindmap[v.term] = ks - {"none"}
            return r != neg
        return True

    def is_empty(self, t):
        if ("len", t) in self.assume:
            return self.assume[("len", t)] == 0
        if isinstance(t, tuple) and t and t[0] == "cat" and any(x[0] == "k" and x[2] != "''" for x in t[1:]):
            return False
        return not self.branch(("truth", t))

    # ---- equality and order ---------------------------------------------
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b and not isinstance(a, Sym):
            return True
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.val == b.val)
            except Exception:
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and isinstance(x.cls, Cls):
                r = self.p.find(x.cls, "__eq__")
                if r:
                    res = self.call(Bound(r[1], x), [y])
                    return self.truth(res)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.payload is not None and b.payload is not None:
                return self.eq(a.payload, b.payload)
            if isinstance(a.cls, Cls) and a.cls is b.cls and not a.lazy and stdlib.is_dataclass(a.cls):
                return all(self.eq(a.fields[n], b.fields[n]) for n, _ in stdlib.annotated(a.cls))
            return False
        if isinstance(a, Obj) and a.payload is not None:
            return self.eq(a.payload, b)
        if isinstance(b, Obj) and b.payload is not None:
            return self.eq(a, b.payload)
        if isinstance(a, Lst) and isinstance(b, Lst):
            ka, kb = a.kind, b.kind
            if {ka, kb} <= {"set", "frozenset"}:
                return (all(any(self.eq(x, y) for y in b.items) for x in a.items)
                        and all(any(self.eq(x, y) for y in a.items) for x in b.items))
            if ka != kb or len(a.items) != len(b.items):
                return False
            return all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Dct) and isinstance(b, Dct):
            if not a.rest and not b.rest:
                if len(a.entries) != len(b.entries):
                    return False
                for k, x in a.entries:
                    y = self.dct_find(b, k)
                    if y is None or not self.eq(x, y):
                        return False
                return True
            return self.branch(("eq", term_of(a), term_of(b)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        if isinstance(a, (Bound,)) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return False

    def sym_eq(self, a, b):
        ta, tb = term_of(a), term_of(b)
        if ta == tb:
            return True
        ka, kb = self.kinds(a), self.kinds(b)
        if not (ka & kb or (ka & NUM and kb & NUM)):
            if not (("obj" in ka) or ("obj" in kb)) or ka == {"none"} or kb == {"none"}:
                return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.uniq and b.uniq:
                return False
            if a.rank is not None and b.rank is not None:
                return a.rank == b.rank
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and y.val is None and isinstance(x, Sym):
                return self.narrow(x, frozenset({"none"}), "none")
            if isinstance(y, K) and isinstance(x, Sym):
                if x.rank is not None and isinstance(y.val, (int, float)) and not isinstance(y.val, bool):
                    return x.rank == y.val
                if y.val == "" or (y.val == 0 and isinstance(x.term, tuple) and x.term[0] == "len"):
                    # emptiness atom shared with truthiness
                    if self.kinds(x) <= {"str"} or (isinstance(x.term, tuple) and x.term[0] == "len"):
                        return not self.truth(x)
        if ka <= NUM and kb <= NUM:
            return self.rel(ta, tb) == "="
        # an atom already known to equal a different constant cannot equal this one
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and isinstance(x, Sym):
                ck = ("const", x.term)
                if ck in self.rels:
                    return self.rels[ck] == (type(y.val), y.val)
                r = self.branch(("eq", x.term, term_of(y)))
                if r:
                    self.rels[ck] = (type(y.val), y.val)
                    self.kindmap[x.term] = self.kinds(y) if not isinstance(y.val, (int, float)) else self.kinds(x) & NUM
                return r
        s = tuple(sorted((ta, tb), key=repr))
        return self.branch(("eq",) + s)

    def rel(self, ta, tb):
        """Order relation of two numeric terms: one three-way atom per pair."""
        if ta == tb:
            return "="
        ca, cb = const_of(ta), const_of(tb)
        if ca is not None and cb is not None:
            return "<" if ca < cb else "=" if ca == cb else ">"
        flip = repr(ta) > repr(tb)
        x, y = (tb, ta) if flip else (ta, tb)
        key = ("rel", x, y)
        if key not in self.assume:
            opts = self.rel_options(x, y)
            c = opts[self.decide(("relc",) + (x, y), len(opts))]
            self.assume[key] = c
            self.rels[(x, y)] = c
        r = self.assume[key]
        if flip:
            r = {"<": ">", ">": "<", "=": "="}[r]
        return r

    def rel_options(self, x, y):
        le = self.reach(x, y)      # x<=y known? strict?
        ge = self.reach(y, x)
        opts = ["<", "=", ">"]
        if le is not None:
            opts.remove(">")
            if le:
                opts.remove("=")
        if ge is not None:
            if "<" in opts:
                opts.remove("<")
            if ge and "=" in opts:
                opts.remove("=")
        return opts or ["="]

    def reach(self, x, y):
        """None: unknown; False: x<=y; True: x<y (by transitivity)."""
        edges = {}
        nodes = set()
        for k, c in self.rels.items():
            if k[0] == "const":
                continue
            a, b = k
            nodes.update((a, b))
            if c in "<=":
                edges.setdefault(a, []).append((b, c == "<"))
            if c in ">=":
                edges.setdefault(b, []).append((a, c == ">"))
        nodes.update((x, y))
        consts = sorted(((const_of(n), n) for n in nodes if const_of(n) is not None), key=lambda z: z[0])
        for (c1, n1), (c2, n2) in zip(consts, consts[1:]):
            edges.setdefault(n1, []).append((n2, c1 < c2))
        best = {x: False}
        todo = [x]
        while todo:
            n = todo.pop()
            for m, s in edges.get(n, ()):
                ns = best[n] or s
                if m not in best or (ns and not best[m]):
                    best[m] = ns
                    todo.append(m)
        return best.get(y)

    def less(self, a, b, node=None):
        a, b = self.force(a), self.force(b)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.val < b.val)
            except TypeError:
                self.raise_ext("builtins.TypeError", node=node)
            except decimal.InvalidOperation:
                self.raise_ext("decimal.InvalidOperation", node=node)
        for x in (a, b):
            if isinstance(x, Obj) and isinstance(x.cls, Cls) and x.payload is None:
                r = self.p.find(x.cls, "__lt__" if x is a else "__gt__")
                if r:
                    return self.truth(self.call(Bound(r[1], x), [b if x is a else a]))
        ra = a.rank if isinstance(a, Sym) else None
        rb = b.rank if isinstance(b, Sym) else None
        va = a.val if isinstance(a, K) else ra
        vb = b.val if isinstance(b, K) else rb
        if va is not None and vb is not None:
            try:
                return bool(va < vb)
            except TypeError:
                self.raise_ext("builtins.TypeError", node=node)
        ka, kb = self.kinds(a), self.kinds(b)
        for x in (a, b):
            if isinstance(x, Sym) and self.strict(x):
                if not self.narrow(x, ALL_KINDS - {"none"}, "none"):
                    self.raise_ext("builtins.TypeError", node=node)
        ka, kb = self.kinds(a), self.kinds(b)
        if not (ka & kb) and not (ka & NUM and kb & NUM) and "obj" not in ka and "obj" not in kb:
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(a, Lst) and isinstance(b, Lst) and a.kind == b.kind and a.kind in ("list", "tuple"):
            for x, y in zip(a.items, b.items):
                if not self.eq(x, y):
                    return self.less(x, y, node)
            return len(a.items) < len(b.items)
        if (ka | kb) <= {"set", "frozenset"} and isinstance(a, Lst) and isinstance(b, Lst):
            return all(self.contains(b, x) for x in a.items) and not all(self.contains(a, x) for x in b.items)
        return self.rel(term_of(a), term_of(b)) == "<"

    def compare(self, op, a, b, node=None):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            fa = self.force(a)
            if isinstance(fa, Obj) and isinstance(fa.cls, Cls):
                r = self.p.find(fa.cls, "__ne__")
                if r:
                    return self.truth(self.call(Bound(r[1], fa), [b]))
                fb = self.force(b)
                fb = fb.payload if isinstance(fb, Obj) and fb.payload is not None else fb
                if fa.payload is not None and type(fa.payload) is type(fb):
                    return not self.eq(fa.payload, fb)      # list.__ne__ / dict.__ne__
            fb = self.force(b)
            if isinstance(fb, Obj) and isinstance(fb.cls, Cls) and not (isinstance(fa, Obj) and isinstance(fa.cls, Cls)):
                r = self.p.find(fb.cls, "__ne__")
                if r:
                    return self.truth(self.call(Bound(r[1], fb), [fa]))
            return not self.eq(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a, node)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a, node)
        a, b = self.force(a), self.force(b)
        f, dn, rn = self.ORDER[type(op)]
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(f(a.val, b.val))
            except TypeError:
                self.raise_ext("builtins.TypeError", node=node)
            except decimal.InvalidOperation:
                self.raise_ext("decimal.InvalidOperation", node=node)
        for x, y, d in ((a, b, dn), (b, a, rn)):
            if isinstance(x, Obj) and isinstance(x.cls, Cls):
                r = self.p.find(x.cls, d)
                if r:
                    res = self.force(self.call(Bound(r[1], x), [y]))
                    if not (isinstance(res, K) and res.val is NotImplemented):
                        return self.truth(res)
        if isinstance(op, ast.Lt):
            return self.less(a, b, node)
        if isinstance(op, ast.Gt):
            return self.less(b, a, node)
        if isinstance(op, ast.LtE):
            return not self.less(b, a, node)
        return not self.less(a, b, node)

    ORDER = {ast.Lt: (lambda a, b: a < b, "__lt__", "__gt__"), ast.Gt: (lambda a, b: a > b, "__gt__", "__lt__"),
             ast.LtE: (lambda a, b: a <= b, "__le__", "__ge__"), ast.GtE: (lambda a, b: a >= b, "__ge__", "__le__")}

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(a, K) and isinstance(b, K):
            return type(a.val) is type(b.val) and a.val == b.val
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and isinstance(x, Sym):
                if y.val is None:
                    return self.narrow(x, frozenset({"none"}), "none")
                if isinstance(y.val, bool):
                    if not self.narrow(x, frozenset({"bool"}), "bool"):
                        return False
                    return self.truth(x) == y.val
                return self.sym_eq(x, y)
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = term_of(a), term_of(b)
            if ta == tb:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and not isinstance(y, Sym) and "obj" not in self.kinds(x):
                    return False
            if isinstance(a, Sym) and isinstance(b, Sym) and a.uniq and b.uniq:
                return False
            s = tuple(sorted((ta, tb), key=repr))
            return self.branch(("is",) + s)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return False

    def contains(self, c, x, node=None):
        c = self.force(c)
        if isinstance(c, Obj):
            if isinstance(c.cls, Cls):
                r = self.p.find(c.cls, "__contains__")
                if r and not isinstance(r[1], K):
                    if not c.exact and self.overridden(c.cls, "__contains__"):
                        return self.branch(("in", term_of(x), term_of(c)))
                    if (q := self.stub_for(r[1])) is not None:
                        return self.truth(q(self, [c, x], {}))
                    return self.truth(self.call(Bound(r[1], c), [x]))
                if c.payload is None and self.p.find(c.cls, "__iter__"):
                    return any(self.eq(x, y) for y in self.iterate(c))
            if c.payload is not None:
                return self.contains(c.payload, x, node)
            if c.exact:
                self.raise_ext("builtins.TypeError", node=node)
            return self.branch(("in", term_of(x), term_of(c)))
        if isinstance(c, Lst):
            if c.kind == "iter":
                return any(self.eq(x, y) for y in c.items[c.pos:])
            return any(self.eq(x, y) for y in c.items)
        if isinstance(c, Dct):
            return self.dct_has(c, x)
        if isinstance(c, K):
            xf = self.force(x)
            if isinstance(xf, K):
                try:
                    return xf.val in c.val
                except TypeError:
                    self.raise_ext("builtins.TypeError", node=node)
            if isinstance(c.val, str):
                if c.val and isinstance(xf, Sym) and len(c.val) <= 12 and xf.label == "char":
                    return any(self.eq(xf, K(ch)) for ch in c.val)
                return self.branch(("in", term_of(xf), term_of(c)))
            if c.val is None:
                self.raise_ext("builtins.TypeError", node=node)
            if isinstance(c.val, (tuple, frozenset, list, set)):
                return any(self.eq(x, K(y)) for y in c.val)
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(c, Cls) and c.enum:
            return any(x is m for m in enum_members(c))
        if isinstance(c, Sym) and self.strict(c):
            if not self.narrow(c, ALL_KINDS - {"none", "bool", "int", "float", "Decimal"}, "container"):
                self.raise_ext("builtins.TypeError", node=node)
        return self.branch(("in", term_of(x), term_of(c)))

    # ---- dict helpers ----------------------------------------------------
    def dct_find(self, d, key):
        key = self.force(key)
        for e in d.entries:
            if e[0] is key or self.eq(e[0], key):
                return e[1]
        return None

    def dct_has(self, d, key):
        if self.dct_find(d, key) is not None:
            return True
        if d.rest:
            return self.dct_rest(d, key) is not None
        return False

    def dct_rest(self, d, key):
        k = ("haskey", d.name, term_of(key))
        if self.branch(k):
            v = d.rest(self, key) if callable(d.rest) else Sym(("val", d.name, term_of(key)))
            d.entries.append([key, v])
            return v
        return None

    def dct_get(self, d, key):
        v = self.dct_find(d, key)
        if v is None and d.rest:
            v = self.dct_rest(d, key)
        return v

    def dct_set(self, d, key, val):
        for e in d.entries:
            if e[0] is key or self.eq(e[0], key):
                e[1] = val
                return
        d.entries.append([key, val])

    # ---- mutation --------------------------------------------------------
    def mutate(self, obj, how, node=None):
        owner = obj
        if isinstance(obj, (Lst, Dct)) and obj.owner is not None:
            owner = obj.owner
        lab = owner.label
        if lab == "global":
            self.global_mutated = True
        self.event("mutate", owner, how, lab, node=node)

    def force(self, v):
        while isinstance(v, Thunk):
            v = v.fn()
        return v

    # ---- modules ---------------------------------------------------------
    def exec_module(self, m):
        if m.done:
            return
        m.done = True
        fn = Fn(m.tree, m, None, None, "<module>")
        fr = Frame(fn, Env(None, m), None, None)
        fr.env.vars = m.env
        m.env["__name__"] = K(m.name)
        self.stack.append(fr)
        try:
            for st in m.tree.body:
                if isinstance(st, ast.If) and is_main_guard(st):
                    continue
                self.stmt(st)
        finally:
            self.stack.pop()

    def lookup_module(self, name):
        return self.p.modules.get(name)

    def global_name(self, mod, name, node=None):
        v = mod.env.get(name)
        if v is None:
            if name in mod.env:
                return NONE
            if name in extern.BUILTIN_CONST:
                return K(extern.BUILTIN_CONST[name])
            if hasattr(builtins, name):
                return Ext("builtins." + name)
            if self.loading:
                # annotation or late-bound name
                return Sym(("late", mod.name, name))
            self.raise_ext("builtins.NameError", K(name), node=node)
        if isinstance(v, ImportRef):
            v = self.resolve_import(v)
        return v

    def resolve_import(self, r):
        m = self.lookup_module(r.mod)
        if m is None:
            return Ext(f"{r.mod}.{r.name}")
        if not m.done:
            self.p.boot.exec_module(m)
        v = m.env.get(r.name)
        if v is None:
            sub = self.lookup_module(f"{r.mod}.{r.name}")
            if sub is not None:
                if not sub.done:
                    self.p.boot.exec_module(sub)
                return sub
            if self.loading:
                return r
            self.raise_ext("builtins.ImportError", K(r.name))
        if isinstance(v, ImportRef):
            return self.resolve_import(v)
        return v

    # ---- name lookup -----------------------------------------------------
    def name(self, n, node=None):
        env = self.stack[-1].env
        while env is not None:
            if n in env.vars:
                v = env.vars[n]
                if isinstance(v, ImportRef):
                    return self.resolve_import(v)
                return v
            if env.locals is not None and n in env.locals:
                self.event("unbound", n, node=node)
                self.raise_ext("builtins.UnboundLocalError", K(n), node=node)
            env = env.parent
        return self.global_name(self.stack[-1].env.module, n, node)

    # ---- statements ------------------------------------------------------
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        self.nsteps += 1
        if self.nsteps > self.cfg.steps:
            raise Cut("steps")
        if self.nsteps & 255 == 0 and self.p.deadline is not None and time.monotonic() > self.p.deadline:
            raise Cut("time")
        fr = self.stack[-1]
        fr.node = st
        if not self.loading:
            self.p.stmts.add((fr.fn.module.name, st.lineno))
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st)

    def s_Expr(self, st):
        self.expr(st.value)

    def s_Pass(self, st):
        pass

    def s_Assign(self, st):
        v = self.expr(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value))

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, t)
            self.stack[-1].node = st
            new = self.augop(st.op, old, self.expr(st.value), st)
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            old = self.getattr_(o, t.attr, t)
            new = self.augop(st.op, old, self.expr(st.value), st)
            self.setattr_(o, t.attr, new, st)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.expr(t.slice)
            old = self.getitem(o, k, t)
            new = self.augop(st.op, old, self.expr(st.value), st)
            self.setitem(o, k, new, st)
        else:
            raise Unsupported("augassign")

    def augop(self, op, old, val, node):
        o = self.force(old)
        pay = o.payload if isinstance(o, Obj) else o
        if isinstance(o, Obj) and isinstance(o.cls, Cls):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__", "BitAnd": "__iand__"}.get(type(op).__name__)
            r = self.p.find(o.cls, nm) if nm else None
            if r:
                return self.call(Bound(r[1], o), [val])
        if isinstance(pay, Lst) and pay.kind in ("list", "deque") and isinstance(op, ast.Add):
            items = self.iterate(val, node)
            self.mutate(o, "+=", node)
            pay.items.extend(items)
            return o
        if isinstance(pay, Lst) and pay.kind == "set":
            self.mutate(o, "aug", node)
            other = self.iterate(val, node)
            if isinstance(op, ast.BitOr):
                for x in other:
                    if not any(self.eq(x, y) for y in pay.items):
                        pay.items.append(x)
            elif isinstance(op, ast.BitAnd):
                pay.items[:] = [x for x in pay.items if any(self.eq(x, y) for y in other)]
            elif isinstance(op, ast.Sub):
                pay.items[:] = [x for x in pay.items if not any(self.eq(x, y) for y in other)]
            else:
                raise Unsupported("set aug")
            return o
        if isinstance(pay, Dct) and isinstance(op, ast.BitOr):
            self.mutate(o, "|=", node)
            for k, v in self.dict_items(val):
                self.dct_set(pay, k, v)
            return o
        if isinstance(o, Sym) and not self.loading:
            # in-place operator on an unknown container mutates it
            ks = self.kinds(o)
            if isinstance(op, (ast.BitOr, ast.BitAnd)) and "set" in ks or \
                    (isinstance(op, ast.Add) and "list" in ks and not ks & {"str", "int", "float", "Decimal"}):
                self.event("mutate", o, "aug", o.label or "unknown", node=node)
        return self.binop(op, o, val, node)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            env = self.stack[-1].env
            while env.parent is not None and t.id in env.nonlocals:
                env = env.parent
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.expr(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value), self.expr(t.slice), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n, bool(star), t)
            if star:
                i = star[0]
                if len(items) < n - 1:
                    self.raise_ext("builtins.ValueError", node=t)
                k = len(items) - (n - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, Lst("list", items[i:i + k]))
                for e, x in zip(t.elts[i + 1:], items[i + k:]):
                    self.assign(e, x)
            else:
                if len(items) != n:
                    self.raise_ext("builtins.ValueError", node=t)
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        else:
            raise Unsupported(f"target {type(t).__name__}")

    def unpack(self, v, n, star, node):
        v = self.force(v)
        if isinstance(v, Sym):
            ks = self.kinds(v)
            if self.strict(v) and not ks & {"list", "tuple", "dict", "set", "str", "obj"}:
                self.raise_ext("builtins.TypeError", node=node)
            return [Sym(("item", v.term, i)) for i in range(n)]
        return self.iterate(v, node)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.stack[-1].env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.expr(t.value), self.expr(t.slice), t)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.mutate(o, "del ." + t.attr, t)
                if isinstance(o, Obj):
                    o.fields.pop(t.attr, None)
            else:
                raise Unsupported("del")

    def s_Return(self, st):
        raise _Ret(self.expr(st.value) if st.value is not None else NONE)

    def s_If(self, st):
        if self.cond(st.test):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x) for x in e.values)
            return any(self.cond(x) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand)
        return self.truth(self.expr(e))

    def endless(self, what):
        raise Endless(what + " does not end", self.loc(), self.stack[-1].fn.qual)

    def s_While(self, st):
        n = 0
        undecided = 0
        while True:
            before = len(self.trace)
            if not self.cond(st.test):
                self.block(st.orelse)
                return
            n += 1
            if n > ROUNDS:
                if not undecided:
                    self.endless("a loop")
                raise Cut("while")
            try:
                self.block(st.body)
            except _Brk:
                return
            except _Cont:
                pass
            if len(self.trace) > before:
                undecided += 1
                if undecided > self.cfg.while_max:
                    raise Cut("while")

    def s_Match(self, st):
        v = self.force(self.expr(st.subject))
        for c in st.cases:
            if stdlib.match(self, c.pattern, v, st) and (c.guard is None or self.cond(c.guard)):
                return self.block(c.body)

    def s_For(self, st):
        def once(x):
            self.assign(st.target, x)
            try:
                self.block(st.body)
            except _Cont:
                pass
        try:
            self.each(st.iter, once, st)
        except _Brk:
            return
        self.block(st.orelse)

    def each(self, e, fn, node):
        """Call fn with every item of the value of an expression; a generator runs only as far as it is asked to."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute))
                and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in self.p.generators()):
            for x in self.iter_live(self.expr(e), node):
                fn(x)
            return
        f = self.force(self.expr(e.func))
        args, kw = self.arguments(e)
        g, pre = f, []
        if isinstance(g, Bound):
            g, pre = g.fn, [g.self_]
        if isinstance(g, (ClassM, Static)):
            g = g.fn
        if not isinstance(g, Fn) or not has_yield(g.node) or getattr(g.node, "_ctx", False):
            for x in self.iter_live(self.call(f, args, kw, e), node):
                fn(x)
            return

        def hook(v):
            inner = self.stack.pop()
            try:
                fn(v)
            except (AbsRaise, _Ret, _Brk, _Cont, _Found) as x:      # not seen by the generator, whose finally clauses run
                raise _Through(x, hook)
            finally:
                self.stack.append(inner)
        try:
            r = self.call_fn(g, pre + args, kw, e, hook)
        except _Through as t:
            if t.who is not hook:
                raise
            raise t.e
        for x in self.iter_live(r, node):
            fn(x)

    def iter_live(self, it, node):
        it = self.force(it)
        if isinstance(it, Obj) and it.payload is not None and not (isinstance(it.cls, Cls) and self.p.find(it.cls, "__iter__")):
            it = it.payload
        if isinstance(it, Lst) and it.kind in ("list", "deque"):
            i = 0
            while i < len(it.items):
                yield it.items[i]
                i += 1
                if i > ROUNDS:
                    self.endless("a loop")
            return
        if isinstance(it, Lst) and it.kind == "iter":
            while it.pos < len(it.items):
                it.pos += 1
                yield it.items[it.pos - 1]
            return
        for x in self.iterate(it, node):
            yield x

    def iterate(self, v, node=None):
        v = self.force(v)
        if isinstance(v, Lst):
            if v.kind == "iter":
                r = v.items[v.pos:]
                v.pos = len(v.items)
                return list(r)
            if v.kind in ("set", "frozenset") and not v.ordered:
                return self.setseq(v, node)
            return list(v.items)
        if isinstance(v, Dct):
            return self.dict_keys(v)
        if isinstance(v, K):
            if isinstance(v.val, (frozenset, set)):
                return self.setseq(Lst("set", [K(x) for x in sorted(v.val, key=repr)]), node)
            if isinstance(v.val, (str, tuple, list, bytes)):
                return [K(x) for x in v.val]
            if isinstance(v.val, range):
                return [K(x) for x in v.val]
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                r = self.p.find(v.cls, "__iter__")
                if r:
                    return self.iterate(self.call(Bound(r[1], v), []), node)
            if v.payload is not None:
                return self.iterate(v.payload, node)
            if v.lazy:
                return self.iter_sym(Sym(term_of(v)), node)
            if isinstance(v.cls, Cls) and self.p.find(v.cls, "__getitem__"):
                raise Unsupported("getitem iteration")
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(v, Cls) and v.enum:
            return enum_members(v)
        if isinstance(v, Sym):
            return self.iter_sym(v, node)
        self.raise_ext("builtins.TypeError", node=node)

    def setseq(self, v, node=None):
        """Elements of a set in the order that the current policy gives them."""
        r = list(v.items)
        if len(r) > 1:
            self.setsites.add(self.loc(node))
        if self.setorder == 1:
            r.reverse()
        elif self.setorder == 2:
            r = r[1::2] + r[::2]
        elif self.setorder == 3:
            r = r[len(r) // 2:] + r[:len(r) // 2][::-1]
        return r

    def iter_sym(self, v, node):
        if self.item_hook is not None:
            r = self.item_hook(self, v)
            if r is not None:
                return r
        if self.strict(v):
            if not self.narrow(v, frozenset({"str", "bytes", "list", "dict", "tuple", "set", "obj"}), "iterable"):
                self.raise_ext("builtins.TypeError", node=node)
        t = v.term
        if ("truth", t) in self.assume:
            if self.assume[("truth", t)] != 0:
                return []
            n = 1 + self.decide(("len1", t), max(1, self.cfg.iter_max))
        else:
            n = self.decide(("len", t), self.cfg.iter_max + 1)
        ik = {"str"} if self.kinds(v) <= {"str"} else None
        return [Sym(("item", t, i), ik) for i in range(n)]

    def dict_keys(self, d):
        if d.rest:
            self.dict_expand(d)
        return [e[0] for e in d.entries]

    def dict_expand(self, d):
        if callable(d.rest) and getattr(d.rest, "expand", None):
            d.rest.expand(self, d)

    def dict_items(self, v):
        v = self.force(v)
        if isinstance(v, Obj) and v.payload is not None:
            v = v.payload
        if isinstance(v, Dct):
            if v.rest:
                self.dict_expand(v)
            return [(k, x) for k, x in v.entries]
        if isinstance(v, Lst):
            res = []
            for it in self.iterate(v):
                a = self.unpack(it, 2, False, None)
                res.append((a[0], a[1]))
            return res
        if isinstance(v, Sym):
            ks = self.iter_sym(v, None)
            return [(k, Sym(("getitem", v.term, k.term))) for k in ks]
        if isinstance(v, K) and v.val is None:
            self.raise_ext("builtins.TypeError")
        raise Unsupported(f"dict items of {v!r}")

    def s_Break(self, st):
        raise _Brk()

    def s_Continue(self, st):
        raise _Cont()

    def s_Raise(self, st):
        if st.exc is None:
            for f in reversed(self.stack):
                if f.exc is not None:
                    raise f.exc
            raise Unsupported("bare raise")
        v = self.force(self.expr(st.exc))
        cause = self.force(self.expr(st.cause)) if st.cause is not None else None
        if isinstance(v, (Cls, Ext)):
            v = self.call(v, [])
        if isinstance(v, Obj):
            if cause is not None:
                v.fields["__cause__"] = cause
            else:
                v.fields.setdefault("__cause__", NONE)
        if isinstance(v, Sym):
            v = Obj(Ext("builtins.Exception"), ("symexc", v.term), {"args": Lst("tuple", [])})
        self.raise_obj(v, st)

    def s_Assert(self, st):
        if not self.cond(st.test):
            self.raise_ext("builtins.AssertionError", node=st)

    def s_Try(self, st):
        try:
            try:
                self.block(st.body)
            except AbsRaise as e:
                h = self.match_handler(st.handlers, e)
                if h is None:
                    raise
                fr = self.stack[-1]
                old = fr.exc
                fr.exc = e
                try:
                    if h.name:
                        fr.env.vars[h.name] = e.exc
                    self.block(h.body)
                finally:
                    fr.exc = old
                    if h.name:
                        fr.env.vars.pop(h.name, None)
            else:
                self.block(st.orelse)
        finally:
            if st.finalbody:
                # a Cut must not run program code
                import sys as _s
                if not isinstance(_s.exc_info()[1], (Cut, Unsupported)):
                    self.block(st.finalbody)

    def match_handler(self, handlers, e):
        for h in handlers:
            if h.type is None:
                return h
            t = self.force(self.expr(h.type))
            ts = t.items if isinstance(t, Lst) else [t]
            for c in ts:
                c = self.force(c)
                if isinstance(e.exc, Obj) and isinstance(c, (Cls, Ext)):
                    if self.p.issub(e.exc.cls, c):
                        return h
        return None

    def s_With(self, st):
        self.with_(st, list(st.items))

    def with_(self, st, items):
        if not items:
            return self.block(st.body)
        i = items.pop(0)
        v = self.force(self.expr(i.context_expr))
        if isinstance(v, Obj) and isinstance(v.cls, Ext) and v.cls.name == "contextlib.cm":
            fn, args, kw = v.fields["call"].fn
            ran = []

            def hook(val):
                inner = self.stack.pop()
                ran.append(1)
                try:
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, val)
                    self.with_(st, items)
                except (_Ret, _Brk, _Cont) as e:
                    raise _Through(e, hook)
                finally:
                    self.stack.append(inner)
            try:
                self.call_fn(fn, args, kw, st, hook)
            except _Through as t:
                if t.who is not hook:
                    raise
                raise t.e
            if not ran:
                self.raise_ext("builtins.RuntimeError", node=st)
            return
        has = lambda n: isinstance(v, Obj) and (n in v.fields or isinstance(v.cls, Cls) and self.p.find(v.cls, n))
        got = self.force(self.call(self.getattr_(v, "__enter__"), [], {}, st)) if has("__enter__") else v if isinstance(v, Obj) else Sym(("with", term_of(v)))
        if i.optional_vars is not None:
            self.assign(i.optional_vars, got)
        if not has("__exit__"):
            return self.with_(st, items)
        leave = lambda *a: self.call(self.getattr_(v, "__exit__"), list(a), {}, st)
        try:
            self.with_(st, items)
        except AbsRaise as e:
            if not self.truth(leave(e.exc.cls, e.exc, NONE)):
                raise
        except (Cut, Unsupported):      # a Cut must not run program code
            raise
        except BaseException:
            leave(NONE, NONE, NONE)
            raise
        else:
            leave(NONE, NONE, NONE)

    def s_Global(self, st):
        pass

    def s_Nonlocal(self, st):
        self.stack[-1].env.nonlocals = tuple(self.stack[-1].env.nonlocals) + tuple(st.names)

    def s_Import(self, st):
        for a in st.names:
            m = self.lookup_module(a.name)
            if m is not None and not m.done:
                self.p.boot.exec_module(m)
            if a.asname:
                self.stack[-1].env.vars[a.asname] = m or Ext(a.name)
            else:
                root = a.name.split(".")[0]
                self.stack[-1].env.vars[root] = self.lookup_module(root) or Ext(root)

    def s_ImportFrom(self, st):
        mod = self.stack[-1].fn.module
        if st.level:
            parts = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            name = ".".join(parts + ([st.module] if st.module else []))
        else:
            name = st.module
        m = self.lookup_module(name)
        for a in st.names:
            if a.name == "*":
                if m is None:
                    raise Unsupported("star import")
                self.p.boot.exec_module(m)
                for k, v in m.env.items():
                    if not k.startswith("_"):
                        self.stack[-1].env.vars[k] = v
                continue
            if m is None:
                full = f"{name}.{a.name}"
                self.stack[-1].env.vars[a.asname or a.name] = (
                    K(extern.EXT_CONST[full]) if full in extern.EXT_CONST else Ext(full))
            else:
                sub = self.lookup_module(f"{name}.{a.name}")
                if sub is not None and name == PKG:
                    self.p.boot.exec_module(sub)
                    self.stack[-1].env.vars[a.asname or a.name] = m.env.get(a.name, sub)
                    continue
                if not m.done:
                    self.p.boot.exec_module(m)
                self.stack[-1].env.vars[a.asname or a.name] = m.env.get(a.name) or ImportRef(name, a.name)

    def s_FunctionDef(self, st):
        self.stack[-1].env.vars[st.name] = self.decorate(self.make_fn(st, st.name), st)

    def make_fn(self, node, name):
        fr = self.stack[-1]
        a = node.args
        defaults = [self.expr(d) for d in a.defaults]
        for d in defaults:
            if isinstance(d, (Lst, Dct)) and isinstance(d, V):
                if getattr(d, "kind", "dict") != "tuple":
                    d.label = "global"
        kwd = {x.arg: self.expr(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        incls = getattr(fr, "cls", None) if fr.fn.qual.startswith("<class>") else None
        if fr.fn.qual == "<module>":
            qual = name
            outer = None
        elif incls is not None:
            qual = incls.name + "." + name
            outer = None
        else:
            qual = fr.fn.qual + "." + name
            outer = fr.env
        f = Fn(node, fr.fn.module, incls, outer, qual, defaults, kwd)
        if outer is not None:
            f.cls = fr.cls    # closures see the defining class for super()
            f.kind = "closure"
        return f

    def decorate(self, f, st):
        v = f
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                prop = self.stack[-1].env.vars.get(d.value.id) if isinstance(d.value, ast.Name) else None
                if isinstance(prop, Prop):
                    v = Prop(prop.getter, v) if d.attr == "setter" else prop
                continue
            dv = self.expr(d)
            if isinstance(dv, Ext):
                n = dv.name
                if n in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                    v = Prop(v)
                elif n == "builtins.staticmethod":
                    v = Static(v)
                elif n == "builtins.classmethod":
                    v = ClassM(v)
                elif n in ("contextlib.contextmanager", "contextlib.asynccontextmanager") and isinstance(v, Fn):
                    v.node._ctx = True
                # other external decorators (abstractmethod, lru_cache, wraps...) keep the function
            elif isinstance(dv, (Fn, Bound)):
                v = self.call(dv, [v])
            elif isinstance(dv, Sym):
                pass
        return v

    def s_ClassDef(self, st):
        fr = self.stack[-1]
        bases = []
        for b in st.bases:
            v = self.force(self.expr(b))
            if isinstance(v, (Cls, Ext)):
                bases.append(v)
        c = Cls(st.name, fr.fn.module, bases, st)
        c.mro = c3(c)
        c.enum = any(isinstance(x, Ext) and x.name in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag") for x in c.mro)
        fn = Fn(st, fr.fn.module, c, None, f"<class>{st.name}")
        env = Env(None, fr.fn.module)
        if fr.fn.qual != "<module>":
            env.parent = fr.env
        env.vars = c.ns
        f2 = Frame(fn, env, c, None)
        self.stack.append(f2)
        try:
            for s in st.body:
                self.stmt(s)
        finally:
            self.stack.pop()
        for k, v in list(c.ns.items()):
            if isinstance(v, (Lst, Dct)) and v.label == "fresh":
                v.label = "global"
            if c.enum and not k.startswith("_") and isinstance(v, (K, Lst, Sym)):
                val = v
                if isinstance(v, Sym) and v.term and v.term[0] == "ext" and "auto" in str(v.term[1]):
                    val = K(1 + sum(isinstance(x, Obj) and x.cls is c for x in c.ns.values()))
                c.ns[k] = Obj(c, ("enum", c.name, k), {"name": K(k), "value": val, "_name_": K(k), "_value_": val}, label="global")
        fr.env.vars[st.name] = c

    # ---- expressions -----------------------------------------------------
    def expr(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return self.force(m(e))

    def e_Constant(self, e):
        return K(e.value)

    def e_Name(self, e):
        return self.name(e.id, e)

    def e_Attribute(self, e):
        return self.getattr_(self.expr(e.value), e.attr, e)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        env = self.stack[-1].env
        while env.locals is None and env.parent is not None:
            env = env.parent
        env.vars[e.target.id] = v
        return v

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym):
                return kbool(not self.truth(v))
            return kbool(not self.truth(v))
        if isinstance(v, K):
            try:
                return K(-v.val if isinstance(e.op, ast.USub) else +v.val if isinstance(e.op, ast.UAdd) else ~v.val)
            except TypeError:
                self.raise_ext("builtins.TypeError", node=e)
        if isinstance(v, Sym):
            if self.strict(v) and not self.narrow(v, NUM | {"obj"}, "number"):
                self.raise_ext("builtins.TypeError", node=e)
            ks = self.kinds(v)
            if isinstance(e.op, ast.USub):
                if isinstance(v.term, tuple) and v.term[0] == "neg":
                    return Sym(v.term[1], ks)
                return Sym(("neg", v.term), ks, rank=-v.rank if v.rank is not None else None)
            return Sym((type(e.op).__name__, v.term), ks)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            r = self.p.find(v.cls, {"USub": "__neg__", "Invert": "__invert__"}.get(type(e.op).__name__, "__pos__"))
            if r:
                return self.call(Bound(r[1], v), [])
        self.raise_ext("builtins.TypeError", node=e)

    def e_Compare(self, e):
        left = self.expr(e.left)
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            if not self.compare(op, left, right, e):
                return FALSE
            left = right
        return TRUE

    def e_IfExp(self, e):
        return self.expr(e.body if self.cond(e.test) else e.orelse)

    def e_BinOp(self, e):
        return self.binop(e.op, self.expr(e.left), self.expr(e.right), e)

    def e_Lambda(self, e):
        return self.make_fn(e, "<lambda>")

    def e_Tuple(self, e):
        return Lst("tuple", self.elts(e.elts))

    def e_List(self, e):
        return Lst("list", self.elts(e.elts), site=(self.loc(e)))

    def e_Set(self, e):
        return self.mkset(self.elts(e.elts))

    def mkset(self, items, kind="set"):
        out = []
        for x in items:
            if not any(self.eq(x, y) for y in out):
                out.append(x)
        return Lst(kind, out)

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value), x))
            else:
                out.append(self.expr(x))
        return out

    def e_Starred(self, e):
        raise Unsupported("starred")

    def e_Dict(self, e):
        d = Dct(site=self.loc(e))
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a, b in self.dict_items(self.expr(v)):
                    self.dct_set(d, a, b)
            else:
                kk = self.expr(k)
                self.dct_set(d, kk, self.expr(v))
        return d

    def comp(self, e, gens, emit):
        fr = self.stack[-1]
        old = fr.env
        env = Env(old, old.module)
        # class-body comprehensions do not see the class scope, but no such use matters here

        def rec(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]

            def once(x):
                self.assign(g.target, x)
                if all(self.cond(c) for c in g.ifs):
                    rec(i + 1)
            self.each(g.iter, once, g.iter)
        fr.env = env
        try:
            rec(0)
        finally:
            fr.env = old

    def e_ListComp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append(self.expr(e.elt)))
        return Lst("list", out, site=self.loc(e))

    def e_SetComp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append(self.expr(e.elt)))
        return self.mkset(out)

    def e_GeneratorExp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append(self.expr(e.elt)))
        return Lst("iter", out)

    def e_DictComp(self, e):
        d = Dct(site=self.loc(e))

        def emit():
            k = self.expr(e.key)
            self.dct_set(d, k, self.expr(e.value))
        self.comp(e, e.generators, emit)
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.expr(v.value)
                if v.conversion == ord("r"):
                    x = self.repr_(x)
                if v.format_spec is not None:
                    fs = self.expr(v.format_spec)
                    if isinstance(x, K) and isinstance(fs, K):
                        parts.append(K(format(x.val, fs.val)))
                    else:
                        parts.append(Sym(("format", term_of(x), term_of(fs)), {"str"}))
                else:
                    parts.append(self.str_(x))
        return self.cat(parts)

    def e_FormattedValue(self, e):
        return self.str_(self.expr(e.value))

    def cat(self, parts):
        out = []
        for p in parts:
            p = self.force(p)
            ts = p.term[1:] if isinstance(p, Sym) and isinstance(p.term, tuple) and p.term[0] == "cat" else (term_of(p),)
            for t in ts:
                c = t[0] == "k" and t[1] == "str"
                if c and t[2] == "''":
                    continue
                if c and out and out[-1][0] == "k":
                    out[-1] = ("k", "str", repr(ast.literal_eval(out[-1][2]) + ast.literal_eval(t[2])))
                else:
                    out.append(t)
        if not out:
            return K("")
        if len(out) == 1:
            if out[0][0] == "k":
                return K(ast.literal_eval(out[0][2]))
            for p in parts:
                if isinstance(p, Sym) and p.term == out[0]:
                    return p
            return Sym(out[0], {"str"})
        return Sym(("cat",) + tuple(out), {"str"})

    def e_Subscript(self, e):
        o = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.expr(e.slice.lower) if e.slice.lower else NONE
            hi = self.expr(e.slice.upper) if e.slice.upper else NONE
            stp = self.expr(e.slice.step) if e.slice.step else NONE
            return self.getslice(o, lo, hi, stp, e)
        if isinstance(o, (Cls, Ext)) and not (isinstance(o, Cls) and o.enum):
            if isinstance(o, Ext) and o.name in ("os.environ",):
                return Sym(("environ", term_of(self.expr(e.slice))), {"str"})
            if not (isinstance(o, Ext) and o.name.startswith("sys.")):
                try:
                    self.expr(e.slice)
                except (AbsRaise, Unsupported):
                    pass
                return o
        if isinstance(o, Sym) and o.term and o.term[0] == "late":
            return o
        return self.getitem(o, self.expr(e.slice), e)

    def e_Slice(self, e):
        return Lst("tuple", [K("slice")] + [self.expr(x) if x else NONE for x in (e.lower, e.upper, e.step)])

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value else NONE
        fr = self.stack[-1]
        if fr.hook is not None:
            fr.hook(v)
            return NONE
        fr.yields.append(v)
        if len(fr.yields) > ROUNDS:
            raise Cut("yield")
        return NONE

    def e_YieldFrom(self, e):
        fr = self.stack[-1]
        if fr.hook is not None:
            self.each(e.value, fr.hook, e)
        else:
            fr.yields.extend(self.iterate(self.expr(e.value), e))
        return NONE

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.stack[-1]
            return SuperV(fr.cls, fr.self_)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            c, o = self.force(self.expr(e.args[0])), self.force(self.expr(e.args[1]))
            if isinstance(c, Cls) and isinstance(o, (Obj, Cls)):
                return SuperV(c, o)
        f = self.expr(e.func)
        if e.args and isinstance(e.args[0], ast.GeneratorExp) and isinstance(f, Ext) and f.name in LAZY and not e.keywords \
                and not isinstance(e.args[-1], ast.Starred) and len(e.args) <= (2 if f.name == "builtins.next" else 1):
            return self.first(f.name[9:], e)
        args, kw = self.arguments(e)
        self.stack[-1].node = e if not isinstance(self.stack[-1].node, ast.stmt) else self.stack[-1].node
        return self.call(f, args, kw, e)

    def arguments(self, e):
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for a, b in self.dict_items(self.expr(k.value)):
                    if isinstance(a, K):
                        kw[a.val] = b
                    else:
                        kw.setdefault("**", []).append((a, b))
            else:
                kw[k.arg] = self.expr(k.value)
        return args, kw

    def first(self, what, e):
        """any(), all() or next() of a generator expression: evaluated no further than Python would."""
        g = e.args[0]
        found = []

        def emit():
            v = self.expr(g.elt)
            if what == "next" or self.truth(v) == (what == "any"):
                found.append(v)
                raise _Found()
        try:
            self.comp(g, g.generators, emit)
        except _Found:
            pass
        if what != "next":
            return kbool(bool(found) == (what == "any"))
        if found:
            return found[0]
        if len(e.args) > 1:
            return self.expr(e.args[1])
        self.raise_ext("builtins.StopIteration", node=e)

    # ---- attribute access -----------------------------------------------
    def overridden(self, cls, name):
        return any(name in c.ns for c in self.p.subclasses(cls, strict=True))

    def getattr_(self, o, name, node=None):
        o = self.force(o)
        if isinstance(o, Obj):
            return self.obj_attr(o, name, node)
        if isinstance(o, Cls):
            if name in ("__name__", "__qualname__"):
                return K(o.name)
            if name == "__class__":
                return Ext("builtins.type")
            if name == "__mro__":
                return Lst("tuple", list(o.mro))
            if name == "__bases__":
                return Lst("tuple", list(o.bases) or [Ext("builtins.object")])
            if name == "__members__" and o.enum:
                return Dct([(K(m.fields["name"].val), m) for m in enum_members(o)])
            r = self.p.find(o, name)
            if r:
                v = r[1]
                if isinstance(v, Static):
                    return v.fn
                if isinstance(v, ClassM):
                    return Bound(v.fn, o)
                if isinstance(v, ImportRef):
                    return self.resolve_import(v)
                return v
            for c in o.mro:
                if isinstance(c, Ext):
                    b = extern.ext_class(c.name)
                    if b is not None and hasattr(b, name) and name not in ("__class__", "__dict__"):
                        return Ext(c.name + "." + name)
            if any(isinstance(c, Ext) and extern.opaque_base(c.name) for c in o.mro):
                return Sym(("clsattr", o.name, name))
            self.event("attrerr", o, name, node=node)
            self.raise_ext("builtins.AttributeError", K(name), node=node)
        if isinstance(o, SuperV):
            return self.super_attr(o, name, node)
        if isinstance(o, Mod):
            if name in o.env:
                v = o.env[name]
                return self.resolve_import(v) if isinstance(v, ImportRef) else v
            sub = self.lookup_module(o.name + "." + name)
            if sub is not None:
                self.p.boot.exec_module(sub)
                return sub
            self.raise_ext("builtins.AttributeError", K(name), node=node)
        if isinstance(o, Ext):
            full = o.name + "." + name
            if full in self.extconst:
                return self.extconst[full]
            if full in extern.EXT_CONST:
                return K(extern.EXT_CONST[full])
            if name in ("__name__", "__qualname__") and extern.ext_class(o.name) is not None:
                return K(o.name.split(".")[-1])
            return Ext(full)
        if isinstance(o, K):
            if not hasattr(o.val, name):
                self.event("attrerr", o, name, node=node)
                self.raise_ext("builtins.AttributeError", K(name), node=node)
            if name == "__class__":
                return Ext("builtins." + type(o.val).__name__)
            if name in ("real", "imag", "numerator"):
                return K(getattr(o.val, name))
            return BuiltinMethod(o, name)
        if isinstance(o, Lst):
            if name == "__class__":
                return Ext("collections.deque" if o.kind == "deque" else "builtins." + o.kind)
            if o.kind == "iter" or hasattr(extern.LSTTYPE[o.kind], name):
                return BuiltinMethod(o, name)
            self.event("attrerr", o, name, node=node)
            self.raise_ext("builtins.AttributeError", K(name), node=node)
        if isinstance(o, Dct):
            if hasattr(dict, name):
                return BuiltinMethod(o, name)
            self.event("attrerr", o, name, node=node)
            self.raise_ext("builtins.AttributeError", K(name), node=node)
        if isinstance(o, Sym):
            return self.sym_attr(o, name, node)
        if isinstance(o, (Fn, Bound)):
            f = o.fn if isinstance(o, Bound) else o
            if name in ("__name__",):
                return K(f.qual.split(".")[-1] if isinstance(f, Fn) else "?")
            if name == "__self__" and isinstance(o, Bound):
                return o.self_
            return Sym(("fnattr", term_of(o), name))
        if isinstance(o, (Native, BuiltinMethod)):
            return Sym(("fnattr", term_of(o), name))
        raise Unsupported(f"attribute {name} of {o!r}")

    def obj_attr(self, o, name, node):
        if name == "__class__":
            if o.exact:
                return o.cls
            return Sym(("class", term_of(o)), {"obj"})
        if isinstance(o.cls, Ext):
            if name in o.fields:
                return self.force_field(o, name)
            b = extern.ext_class(o.cls.name)
            if b is not None and hasattr(b, name):
                return BuiltinMethod(o, name)
            if b is not None and o.exact:
                self.event("attrerr", o, name, node=node)
                self.raise_ext("builtins.AttributeError", K(name), node=node)
            return Sym(("field", term_of(o), name))
        r = self.p.find(o.cls, name)
        if r and isinstance(r[1], Prop):
            if name in o.fields:           # scenario override of a property
                return self.force_field(o, name)
            if not o.exact and self.overridden(o.cls, name):
                return Sym(("field", term_of(o), name))
            st = self.stub_for(r[1].getter)
            if st is not None:
                return st(self, [o], {})
            return self.call(Bound(r[1].getter, o), [], {}, node)
        if name in o.fields:
            return self.force_field(o, name)
        if r:
            v = r[1]
            if isinstance(v, ImportRef):
                v = self.resolve_import(v)
            if isinstance(v, Fn):
                if not o.exact and self.overridden(o.cls, name) and self.stub_for(v) is None:
                    return Sym(("method", term_of(o), name), {"obj"}, label=o.label)
                return Bound(v, o)
            if isinstance(v, Static):
                return v.fn
            if isinstance(v, ClassM):
                return Bound(v.fn, o.cls)
            if isinstance(v, Ext) and False:
                return v
            return v
        if o.payload is not None:
            base = dict if isinstance(o.payload, Dct) else extern.LSTTYPE[o.payload.kind]
            if hasattr(base, name):
                return BuiltinMethod(o, name)
        for c in o.cls.mro:
            if isinstance(c, Ext):
                b = extern.ext_class(c.name)
                if b is not None and hasattr(b, name) and name != "__dict__":
                    if isinstance(b, type) and issubclass(b, BaseException) and name == "args":
                        return o.fields.setdefault("args", Lst("tuple", []))
                    return BuiltinMethod(o, name)
        if name == "__dict__":
            return Dct([(K(k), v) for k, v in o.fields.items()])
        ga = self.p.find(o.cls, "__getattr__")
        if ga:
            return self.call(Bound(ga[1], o), [K(name)], {}, node)
        if o.lazy:
            if not o.exact or self.attr_known(o.cls, name):
                v = Sym(("field", o.name, name), label=o.label if o.label != "fresh" else None)
                o.fields[name] = v
                return v
        if not o.exact and any(self.attr_known(c, name) for c in self.p.subclasses(o.cls)):
            return Sym(("field", o.name, name))
        self.event("attrerr", o, name, node=node)
        self.raise_ext("builtins.AttributeError", K(name), node=node)

    def attr_known(self, cls, name):
        """Does any method of the class's MRO assign self.<name>?"""
        for c in cls.mro:
            if isinstance(c, Cls):
                if name in c.ns or name in self_attrs(c):
                    return True
            elif extern.opaque_base(c.name):
                return True
        return False

    def force_field(self, o, name):
        v = o.fields[name]
        if isinstance(v, Thunk):
            v = self.force(v)
            o.fields[name] = v
        return v

    def super_attr(self, s, name, node):
        o = s.self_
        cls = o.cls if isinstance(o, Obj) else o if isinstance(o, Cls) else None
        if cls is None:
            raise Unsupported("super without object")
        mro = cls.mro
        i = next((i for i, c in enumerate(mro) if c is s.cls), None)
        if i is None:
            raise Unsupported("super: class not in MRO")
        for c in mro[i + 1:]:
            if isinstance(c, Cls):
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(Bound(v.getter, o), [])
                    if isinstance(v, Static):
                        return v.fn
                    if isinstance(v, ClassM):
                        return Bound(v.fn, cls)
                    return Bound(v, o) if isinstance(v, Fn) else v
            else:
                b = extern.ext_class(c.name)
                if b is not None and hasattr(b, name) and not (name == "__init__" and c.name == "builtins.object" and False):
                    return BuiltinMethod(o, name, c.name)
        if isinstance(o, Obj):
            return BuiltinMethod(o, name, "builtins.object")
        self.raise_ext("builtins.AttributeError", K(name), node=node)

    def sym_attr(self, o, name, node):
        ks = self.kinds(o)
        if self.strict(o) or ks != ALL_KINDS:
            has = frozenset(k for k in ks if k == "obj" or hasattr(PYTYPE.get(k, object), name))
            if not has:
                self.event("attrerr", o, name, node=node)
                self.raise_ext("builtins.AttributeError", K(name), node=node)
            if has != ks:
                if not self.narrow(o, has, "attr:" + name):
                    self.event("attrerr", o, name, node=node)
                    self.raise_ext("builtins.AttributeError", K(name), node=node)
                ks = self.kinds(o)
            if "obj" not in ks:
                if name == "__class__":
                    return Sym(("class", o.term))
                return BuiltinMethod(o, name)
        if name in extern.COMMON_METHODS:
            return BuiltinMethod(o, name)
        return Sym(("attr", o.term, name), label=o.label)

    def setattr_(self, o, name, v, node=None):
        o = self.force(o)
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                r = self.p.find(o.cls, name)
                if r and isinstance(r[1], Prop):
                    if r[1].setter is None:
                        self.raise_ext("builtins.AttributeError", K(name), node=node)
                    self.call(Bound(r[1].setter, o), [v])
                    return
                sa = self.p.find(o.cls, "__setattr__")
                if sa:
                    self.call(Bound(sa[1], o), [K(name), v])
                    return
            self.event("setattr", o, name, o.label, v, node=node)
            if o.label == "global":
                self.global_mutated = True
            o.fields[name] = v
            return
        if isinstance(o, Cls):
            if not self.loading:
                self.global_mutated = True
                self.event("setattr", o, name, "global", v, node=node)
            o.ns[name] = v
            return
        if isinstance(o, Sym):
            self.event("setattr", o, name, o.label or "unknown", v, node=node)
            return
        if isinstance(o, (Mod,)):
            o.env[name] = v
            return
        if isinstance(o, (Fn, Ext, Bound)):
            return
        self.raise_ext("builtins.AttributeError", K(name), node=node)

    # ---- items -----------------------------------------------------------
    def getitem(self, o, k, node=None):
        o, k = self.force(o), self.force(k)
        if isinstance(k, Lst) and k.kind == "tuple" and len(k.items) == 4 and isinstance(k.items[0], K) and k.items[0].val == "slice":
            return self.getslice(o, *k.items[1:], node)
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                r = self.p.find(o.cls, "__getitem__")
                if r:
                    return self.call(Bound(r[1], o), [k], {}, node)
            if o.payload is not None:
                return self.getitem(o.payload, k, node)
            if o.lazy:
                return Sym(("getitem", term_of(o), term_of(k)))
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(o, Lst):
            if o.kind in ("set", "frozenset", "iter"):
                self.raise_ext("builtins.TypeError", node=node)
            if isinstance(k, K):
                if type(k.val) not in (int, bool):
                    self.raise_ext("builtins.TypeError", node=node)
                try:
                    return self.force(o.items[k.val])
                except IndexError:
                    self.raise_ext("builtins.IndexError", node=node)
            if isinstance(k, Sym):
                if self.strict(k) and not self.narrow(k, frozenset({"int", "bool", "obj"}), "index"):
                    self.raise_ext("builtins.TypeError", node=node)
                n = len(o.items)
                opts = [i for i in range(n)]
                c = self.decide(("index", k.term, n), n + 1)
                if c == n:
                    self.raise_ext("builtins.IndexError", node=node)
                return self.force(o.items[opts[c]])
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(o, Dct):
            if isinstance(k, (Lst, Dct)) and getattr(k, "kind", "dict") in ("list", "set", "dict"):
                self.raise_ext("builtins.TypeError", node=node)
            v = self.dct_get(o, k)
            if v is None:
                f = getattr(o, "default", None)
                if f is not None:
                    v = self.force(self.call(f, [], {}, node))
                    if not (isinstance(f, Native) and f.name == "zero"):
                        self.dct_set(o, k, v)
                    return v
                self.raise_ext("builtins.KeyError", k, node=node)
            return v
        if isinstance(o, K):
            if isinstance(o.val, (str, bytes, tuple, list)):
                if isinstance(k, K):
                    try:
                        return K(o.val[k.val])
                    except IndexError:
                        self.raise_ext("builtins.IndexError", node=node)
                    except TypeError:
                        self.raise_ext("builtins.TypeError", node=node)
                return Sym(("getitem", term_of(o), term_of(k)), {"str"} if isinstance(o.val, str) else None)
            if type(o.val).__name__ == "Match" and isinstance(k, K):
                try:
                    return K(o.val[k.val])
                except IndexError:
                    self.raise_ext("builtins.IndexError", node=node)
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(o, Sym):
            if self.strict(o):
                ok = {"str", "bytes", "list", "dict", "tuple", "obj"}
                if not self.narrow(o, frozenset(ok), "subscriptable"):
                    self.raise_ext("builtins.TypeError", node=node)
                ks = self.kinds(o)
                if "obj" not in ks:
                    # JSON-like container
                    key = ("missing", o.term, term_of(k))
                    if isinstance(k, K) and isinstance(k.val, str) and ks & {"list", "str", "tuple", "bytes"}:
                        if not self.narrow(o, frozenset({"dict"}), "dict"):
                            self.raise_ext("builtins.TypeError", node=node)
                    if not self.sym_has(o, k):
                        self.raise_ext("builtins.KeyError" if self.kinds(o) == {"dict"} else "builtins.IndexError", k, node=node)
            return Sym(("getitem", o.term, term_of(k)), {"str"} if self.kinds(o) == {"str"} else None, label=o.label)
        if isinstance(o, Cls) and o.enum and isinstance(k, K):
            for m in enum_members(o):
                if m.fields["name"].val == k.val:
                    return m
            self.raise_ext("builtins.KeyError", k, node=node)
        if isinstance(o, Ext):
            return Sym(("getitem", term_of(o), term_of(k)))
        self.raise_ext("builtins.TypeError", node=node)

    def sym_has(self, o, k):
        return self.branch(("in", term_of(k), o.term))

    def getslice(self, o, lo, hi, stp, node=None):
        o = self.force(o)
        if isinstance(o, Obj) and o.payload is not None:
            r = self.p.find(o.cls, "__getitem__") if isinstance(o.cls, Cls) else None
            if not r:
                o = o.payload
        if all(isinstance(x, K) for x in (lo, hi, stp)):
            sl = slice(lo.val, hi.val, stp.val)
            if isinstance(o, Lst):
                try:
                    return Lst(o.kind, o.items[sl])
                except TypeError:
                    self.raise_ext("builtins.TypeError", node=node)
            if isinstance(o, K) and isinstance(o.val, (str, bytes)):
                return K(o.val[sl])
            if isinstance(o, K):
                self.raise_ext("builtins.TypeError", node=node)
        if isinstance(o, Sym):
            if self.strict(o) and not self.narrow(o, frozenset({"str", "bytes", "list", "tuple", "obj"}), "sliceable"):
                self.raise_ext("builtins.TypeError", node=node)
        ks = self.kinds(o)
        return Sym(("slice", term_of(o), term_of(lo), term_of(hi), term_of(stp)), ks if ks != ALL_KINDS else None)

    def setitem(self, o, k, v, node=None):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                r = self.p.find(o.cls, "__setitem__")
                if r:
                    self.call(Bound(r[1], o), [k, v], {}, node)
                    return
            if o.payload is not None:
                self.setitem(o.payload, k, v, node)
                return
            if o.lazy:
                self.mutate(o, "[]=", node)
                return
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(o, Lst):
            if o.kind not in ("list", "deque"):
                self.raise_ext("builtins.TypeError", node=node)
            if isinstance(k, K) and type(k.val) is int:
                self.mutate(o, f"[{k.val}]=", node)
                try:
                    o.items[k.val] = v
                except IndexError:
                    self.raise_ext("builtins.IndexError", node=node)
                return
            if isinstance(k, Lst) and k.items and isinstance(k.items[0], K) and k.items[0].val == "slice":
                if all(isinstance(x, K) for x in k.items[1:]):
                    self.mutate(o, "[:]=", node)
                    o.items[slice(*[x.val for x in k.items[1:]])] = self.iterate(v, node)
                    return
            raise Unsupported("list setitem with unknown index")
        if isinstance(o, Dct):
            self.mutate(o, f"[{show(term_of(k))}]=", node)
            self.dct_set(o, k, v)
            return
        if isinstance(o, Sym):
            self.event("mutate", o, "[]=", o.label or "unknown", node=node)
            return
        self.raise_ext("builtins.TypeError", node=node)

    def delitem(self, o, k, node=None):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                r = self.p.find(o.cls, "__delitem__")
                if r:
                    self.call(Bound(r[1], o), [k], {}, node)
                    return
            if o.payload is not None:
                self.delitem(o.payload, k, node)
                return
            self.mutate(o, "del []", node)
            return
        if isinstance(o, Lst):
            if o.kind not in ("list", "deque"):
                self.raise_ext("builtins.TypeError", node=node)
            if isinstance(k, K):
                if type(k.val) is not int:
                    self.raise_ext("builtins.TypeError", node=node)
                if not -len(o.items) <= k.val < len(o.items):
                    self.raise_ext("builtins.IndexError", node=node)
                self.mutate(o, f"del [{k.val}]", node)
                del o.items[k.val]
                return
            if isinstance(k, Lst) and k.items and isinstance(k.items[0], K) and k.items[0].val == "slice" and all(isinstance(x, K) for x in k.items[1:]):
                self.mutate(o, "del [:]", node)
                del o.items[slice(*[x.val for x in k.items[1:]])]
                return
            raise Unsupported("list delitem with unknown index")
        if isinstance(o, Dct):
            v = self.dct_get(o, k)
            if v is None:
                self.raise_ext("builtins.KeyError", k, node=node)
            self.mutate(o, f"del [{show(term_of(k))}]", node)
            for i, e in enumerate(o.entries):
                if e[0] is k or self.eq(e[0], k):
                    del o.entries[i]
                    break
            return
        if isinstance(o, Sym):
            self.event("mutate", o, "del []", o.label or "unknown", node=node)
            return
        self.raise_ext("builtins.TypeError", node=node)

    # ---- operators -------------------------------------------------------
    OPS = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
           "Div": ("__truediv__", "__rtruediv__"), "Mod": ("__mod__", "__rmod__"), "BitOr": ("__or__", "__ror__"),
           "BitAnd": ("__and__", "__rand__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
           "Pow": ("__pow__", "__rpow__"), "BitXor": ("__xor__", "__rxor__"), "LShift": ("__lshift__", "__rlshift__"),
           "RShift": ("__rshift__", "__rrshift__")}
    PYOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
             "Div": lambda a, b: a / b, "Mod": lambda a, b: a % b, "BitOr": lambda a, b: a | b,
             "BitAnd": lambda a, b: a & b, "FloorDiv": lambda a, b: a // b, "Pow": lambda a, b: a ** b,
             "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}

    def binop(self, op, a, b, node=None):
        a, b = self.force(a), self.force(b)
        n = type(op).__name__
        if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext, K)) and n == "BitOr":
            return a      # typing union
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(self.PYOPS[n](a.val, b.val))
            except TypeError:
                self.raise_ext("builtins.TypeError", node=node)
            except ZeroDivisionError:
                self.raise_ext("builtins.ZeroDivisionError", node=node)
            except decimal.InvalidOperation:
                self.raise_ext("decimal.InvalidOperation", node=node)
            except (OverflowError, ValueError):
                self.raise_ext("builtins.OverflowError", node=node)
        for x, y, d in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Obj) and isinstance(x.cls, Cls):
                r = self.p.find(x.cls, self.OPS[n][d])
                if r:
                    return self.call(Bound(r[1], x), [y], {}, node)
        pa = a.payload if isinstance(a, Obj) and a.payload is not None else a
        pb = b.payload if isinstance(b, Obj) and b.payload is not None else b
        if isinstance(pa, Lst) and isinstance(pb, Lst):
            if n == "Add" and pa.kind == pb.kind:
                return Lst(pa.kind, pa.items + pb.items, site=self.loc(node))
            if pa.kind in ("set", "frozenset") and pb.kind in ("set", "frozenset"):
                if n == "BitOr":
                    return self.mkset(pa.items + pb.items, pa.kind)
                if n == "BitAnd":
                    return Lst(pa.kind, [x for x in pa.items if any(self.eq(x, y) for y in pb.items)])
                if n == "BitXor":
                    return Lst(pa.kind, [x for x in pa.items if not any(self.eq(x, y) for y in pb.items)]
                               + [x for x in pb.items if not any(self.eq(x, y) for y in pa.items)])
                if n == "Sub":
                    return Lst(pa.kind, [x for x in pa.items if not any(self.eq(x, y) for y in pb.items)])
        if isinstance(pa, Lst) and isinstance(pb, K) and n == "Mult" and isinstance(pb.val, int):
            return Lst(pa.kind, pa.items * pb.val)
        if isinstance(pb, Lst) and isinstance(pa, K) and n == "Mult" and isinstance(pa.val, int):
            return Lst(pb.kind, pb.items * pa.val)
        if isinstance(pa, Dct) and isinstance(pb, Dct) and n == "BitOr":
            d = Dct(pa.entries, pa.rest, name=pa.name)
            for k, v in self.dict_items(pb):
                self.dct_set(d, k, v)
            return d
        if n == "Mod" and isinstance(a, K) and isinstance(a.val, str):
            try:
                return K(a.val % extern.unlift(b))
            except LookupError:
                pass
            except (TypeError, ValueError) as e:
                self.raise_ext("builtins." + type(e).__name__, node=node)
            return Sym(("%", term_of(a), term_of(b)), {"str"})
        ka, kb = self.kinds(a), self.kinds(b)
        if n == "Add":
            sa, sb = ka <= {"str"}, kb <= {"str"}
            if sa and sb:
                return self.cat([a, b])
            for x, kx, y, ky in ((a, ka, b, kb), (b, kb, a, ka)):
                if kx <= {"str"} and isinstance(y, Sym):
                    if self.strict(y):
                        if not self.narrow(y, frozenset({"str"}), "str"):
                            self.raise_ext("builtins.TypeError", node=node)
                    else:
                        self.kindmap[y.term] = frozenset({"str"})
                    return self.cat([a, b])
                if kx <= {"str"} and "str" not in ky:
                    self.raise_ext("builtins.TypeError", node=node)
        for x in (a, b):
            if isinstance(x, K) and x.val is None:
                self.raise_ext("builtins.TypeError", node=node)
            if isinstance(x, Sym) and self.strict(x):
                if not self.narrow(x, ALL_KINDS - {"none"}, "none"):
                    self.raise_ext("builtins.TypeError", node=node)
        ka, kb = self.kinds(a), self.kinds(b)
        ks = None
        if ka <= NUM and kb <= NUM:
            if ka <= {"int", "bool"} and kb <= {"int", "bool"}:
                ks = {"int"} if n != "Div" else {"float"}
            elif "Decimal" in ka | kb and not "float" in ka | kb:
                ks = {"Decimal"}
            elif ka <= {"float"} or kb <= {"float"}:
                ks = {"float"}
            else:
                ks = {"int", "float", "Decimal"}
            if self.cfg.strict and n in ("Div", "Mod", "FloorDiv") and not (isinstance(b, K) and b.val):
                if self.branch(("zero", term_of(b))):
                    self.raise_ext("builtins.ZeroDivisionError", node=node)
        elif isinstance(a, (Lst, Dct)) != isinstance(b, (Lst, Dct)) and not isinstance(a, Sym) and not isinstance(b, Sym):
            self.raise_ext("builtins.TypeError", node=node)
        elif ks is None and n in ("BitOr", "BitAnd", "Sub") and (ka <= {"set"} or kb <= {"set"}):
            ks = {"set"}
        elif n == "Add" and (ka <= {"list"} or kb <= {"list"}):
            ks = {"list"}
        ta, tb = term_of(a), term_of(b)
        # x + 0, x * 1
        if isinstance(b, K) and not isinstance(b.val, bool) and n in ("Add", "Sub") and b.val == 0 and isinstance(a, Sym) and isinstance(b.val, int):
            return a
        if isinstance(a, K) and not isinstance(a.val, bool) and n == "Add" and a.val == 0 and isinstance(b, Sym) and isinstance(a.val, int):
            return b
        if n in ("Add", "Mult") and ks and repr(ta) > repr(tb):
            ta, tb = tb, ta
        return Sym((n, ta, tb), ks)

    # ---- str / repr ------------------------------------------------------
    def str_(self, v):
        v = self.force(v)
        if isinstance(v, K):
            return K(str(v.val))
        if isinstance(v, Sym):
            if self.kinds(v) == {"str"}:
                return v
            if isinstance(v.term, tuple) and v.term[0] == "strof":
                return v
            return Sym(("strof", v.term), {"str"})
        if isinstance(v, Obj):
            if "__str__" in v.fields:
                return self.call(v.fields["__str__"], [])
            if isinstance(v.cls, Cls):
                r = self.p.find(v.cls, "__str__") or self.p.find(v.cls, "__repr__")
                if r:
                    if not v.exact and self.overridden(v.cls, "__str__"):
                        return Sym(("strof", term_of(v)), {"str"})
                    return self.call(Bound(r[1], v), [])
            a = v.fields.get("args")
            if isinstance(v.cls, Ext) and isinstance(a, Lst) and len(a.items) < 2:
                b = extern.ext_class(v.cls.name)
                if b is not None and issubclass(b, BaseException):
                    return K("") if not a.items else (self.repr_ if issubclass(b, KeyError) else self.str_)(a.items[0])
            if isinstance(v.name, tuple) and v.name[:1] == ("enum",) and not any(isinstance(c, Ext) and c.name in ("enum.IntEnum", "enum.IntFlag", "enum.Flag", "enum.StrEnum", "builtins.str", "builtins.int") for c in v.cls.mro):
                return K(f"{v.name[1]}.{v.name[2]}")
            return Sym(("strof", term_of(v)), {"str"})
        return self.repr_of(v, "strof")

    def repr_of(self, v, op):
        """str or repr of a container: known if everything in it is."""
        if isinstance(v, (Lst, Dct)):
            parts = [r for i in (v.items if isinstance(v, Lst) else [a for e in v.entries for a in e[:2]]) for r in [self.repr_(i)]]
            if all(isinstance(r, K) for r in parts) and not (isinstance(v, Dct) and v.rest):
                parts = [r.val for r in parts]
                if isinstance(v, Dct):
                    return K("{" + ", ".join(f"{a}: {b}" for a, b in zip(parts[::2], parts[1::2])) + "}")
                if v.kind == "list":
                    return K("[" + ", ".join(parts) + "]")
                if v.kind == "tuple":
                    return K("(" + ", ".join(parts) + ("," if len(parts) == 1 else "") + ")")
        return Sym((op, term_of(v)), {"str"})

    def repr_(self, v):
        v = self.force(v)
        if isinstance(v, K):
            return K(repr(v.val))
        if isinstance(v, (Lst, Dct)):
            return self.repr_of(v, "repr")
        return Sym(("repr", term_of(v)), {"str"})

    # ---- calls -----------------------------------------------------------
    def stub_for(self, fn):
        if isinstance(fn, Fn):
            return self.stubs.get(fn.qual)
        return None

    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        f = self.force(f)
        if isinstance(f, Bound):
            fn = f.fn
            if isinstance(fn, (Fn,)):
                return self.call_fn(fn, [f.self_] + list(args), kw, node)
            if isinstance(fn, ClassM):
                return self.call_fn(fn.fn, [f.self_] + list(args), kw, node)
            return self.call(fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw, node)
        if isinstance(f, Native):
            return self.force(f.fn(self, list(args), kw))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, BuiltinMethod):
            return self.force(extern.call_method(self, f, list(args), kw, node))
        if isinstance(f, Ext):
            h = self.extstub.get(f.name)
            if h is not None:
                return self.force(h(self, list(args), kw))
            return self.force(extern.call_ext(self, f.name, list(args), kw, node))
        if isinstance(f, Obj):
            r = self.p.find(f.cls, "__call__") if isinstance(f.cls, Cls) else None
            if r:
                return self.call(Bound(r[1], f), args, kw, node)
            if f.exact and not f.lazy:
                self.raise_ext("builtins.TypeError", node=node)
            return self.opaque_call(f, args, kw, node)
        if isinstance(f, Sym):
            if self.strict(f) and "obj" not in self.kinds(f):
                self.raise_ext("builtins.TypeError", node=node)
            return self.opaque_call(f, args, kw, node)
        if isinstance(f, K):
            self.event("notcallable", f, node=node)
            self.raise_ext("builtins.TypeError", node=node)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw, node)
        self.raise_ext("builtins.TypeError", node=node)

    def opaque_call(self, f, args, kw, node):
        t = ("call", term_of(f)) + tuple(term_of(a) for a in args) + tuple((k, term_of(v)) for k, v in sorted(kw.items()) if k != "**")
        self.event("opaque", t, node=node)
        return Sym(t, label=getattr(f, "label", None))

    def call_fn(self, fn, args, kw, node=None, hook=None):
        if getattr(fn.node, "_ctx", False) and hook is None:
            return Obj(Ext("contextlib.cm"), self.fresh_id("cm"), {"call": Native((fn, args, kw), "cm")})
        st = self.stubs.get(fn.qual)
        if st is not None:
            self.event("stub", fn.qual, args, kw, node=node)
            return self.force(st(self, args, kw))
        if self.on_call is not None:
            r = self.on_call(self, fn, args, kw)
            if r is not None:
                return r
        depth = sum(1 for f in self.stack if f.fn is fn or (f.fn.node is fn.node))
        if depth >= self.cfg.rec or len(self.stack) > self.cfg.depth:
            self.event("recursion", fn.qual, node=node)
            if self.cfg.rec >= 100 and depth >= self.cfg.rec:
                first = next(f for f in self.stack if f.fn is fn or f.fn.node is fn.node)
                if first.tl == len(self.trace):
                    self.endless("the recursion of " + fn.qual)
            if self.cfg.reccut:
                raise Cut("recursion bound at " + fn.qual)
            return Sym(("rec", fn.qual) + tuple(term_of(a) for a in args))
        if fn.isgen is None:
            fn.isgen = has_yield(fn.node)
            fn.locals = collect_locals(fn.node)
        env = Env(fn.outer, fn.module, fn.locals)
        self.bind(fn, args, kw, env, node)
        if not self.loading:
            self.p.visited.add((fn.module.name, fn.qual))
            self.called.append(fn.qual)
        self_ = None
        if fn.cls is not None:
            if fn.kind == "closure":
                for f in reversed(self.stack):
                    if f.env is fn.outer:
                        self_ = f.self_
                        break
            elif args:
                self_ = args[0]
        fr = Frame(fn, env, fn.cls, self_)
        fr.tl = len(self.trace)
        fr.hook = hook
        self.stack.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                fr.node = fn.node
                return self.expr(fn.node.body)
            try:
                self.block(fn.node.body)
                res = NONE
            except _Ret as r:
                res = self.force(r.v)
            if fn.isgen:
                return Lst("iter", fr.yields)
            return res
        finally:
            self.stack.pop()

    def bind(self, fn, args, kw, env, node):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        extra_star = kw.pop("**", None)
        npos = len(pos)
        vals = env.vars
        for n, v in zip(pos, args):
            vals[n] = v
        if len(args) > npos:
            if a.vararg:
                vals[a.vararg.arg] = Lst("tuple", list(args[npos:]))
            else:
                self.event("arity", fn.qual, node=node)
                self.raise_ext("builtins.TypeError", K("too many arguments for " + fn.qual), node=node)
        elif a.vararg:
            vals[a.vararg.arg] = Lst("tuple", [])
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = Dct()
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vals:
                    self.event("arity", fn.qual, node=node)
                    self.raise_ext("builtins.TypeError", node=node)
                vals[k] = v
            elif a.kwarg:
                rest.entries.append([K(k), v])
            else:
                self.event("arity", fn.qual, node=node)
                self.raise_ext("builtins.TypeError", K(f"unexpected keyword {k} for {fn.qual}"), node=node)
        if a.kwarg:
            for k, v in extra_star or ():
                rest.entries.append([k, v])
            vals[a.kwarg.arg] = rest
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (npos - nd)
                if j >= 0:
                    vals[n] = fn.defaults[j]
                else:
                    self.event("arity", fn.qual, node=node)
                    self.raise_ext("builtins.TypeError", K(f"missing argument {n} of {fn.qual}"), node=node)
        for n in kwonly:
            if n not in vals:
                if n in fn.kwdefaults:
                    vals[n] = fn.kwdefaults[n]
                else:
                    self.event("arity", fn.qual, node=node)
                    self.raise_ext("builtins.TypeError", K(f"missing keyword {n} of {fn.qual}"), node=node)

    def instantiate(self, c, args, kw, node=None, site=None):
        st = self.stubs.get(c.name)
        if st is not None:
            r = st(self, list(args), kw)
            if r is not None:
                return self.force(r)
        if c.enum:
            for m in enum_members(c):
                if self.eq(m.fields["value"], args[0]):
                    return m
            self.raise_ext("builtins.ValueError", node=node)
        self.counter += 1
        o = Obj(c, f"{c.name}#{self.counter}", site=self.loc(node))
        for b in c.mro:
            if isinstance(b, Ext):
                k = b.name.split(".")[-1]
                if b.name in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "collections.deque"):
                    o.payload = Lst(k, [])
                    o.payload.owner = o
                    break
                if b.name in ("builtins.dict", "collections.OrderedDict"):
                    o.payload = Dct()
                    o.payload.owner = o
                    break
        r = self.p.find(c, "__new__")
        if r and isinstance(r[1], (Fn, Static)):
            raise Unsupported("__new__")
        if stdlib.record(self, c, o, args, kw, node):
            return o
        if o.payload is not None and isinstance(o.payload, Lst) and o.payload.kind in ("tuple", "frozenset") and args:
            o.payload.items = self.iterate(args[0], node)
        r = self.p.find(c, "__init__")
        if r:
            self.call_fn(r[1], [o] + list(args), kw, node)
        else:
            extern.ext_init(self, o, list(args), kw, node)
        return o


def const_of(t):
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "k":
        if t[1] in ("int", "float", "bool"):
            try:
                return float(t[2]) if t[1] == "float" else int(ast.literal_eval(t[2]))
            except ValueError:
                return None
        if t[1] == "Decimal":
            return Decimal(t[2][9:-2])
    return None


def enum_members(c):
    return [v for v in c.ns.values() if isinstance(v, Obj) and v.cls is c]


_SELF_ATTRS = {}


def self_attrs(c):
    r = _SELF_ATTRS.get(id(c.node))
    if r is None:
        r = set()
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r.add(n.attr)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                r.add(n.target.id)
        _SELF_ATTRS[id(c.node)] = r
        _KEEP.append(c.node)
    return r


_KEEP = []


def is_main_guard(st):
    t = st.test
    return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__")


class Path:
    __slots__ = ("kind", "value", "exc", "loc", "I", "ctx")

    def __init__(self, kind, I, value=None, exc=None, loc=None):
        self.kind = kind
        self.I = I
        self.value = value
        self.exc = exc
        self.loc = loc
        self.ctx = I.ctx

    @property
    def events(self):
        return self.I.events

    def assumes(self):
        return {k: v for k, v in self.I.assume.items()}

    def excname(self):
        return getattr(self.exc.cls, "name", "?").split(".")[-1] if self.exc is not None else None


def explore(program, scenario, config=None, max_paths=4000, setup=None, enough=None):
    """All paths of `scenario(I)`: a list of Path, and whether it is complete."""
    prefix = []
    n = 0
    paths = []
    complete = True
    while True:
        I = Interp(program, prefix, config)
        if setup:
            setup(I)
        try:
            v = I.force(scenario(I))
            p = Path("return", I, value=v)
        except AbsRaise as e:
            p = Path("raise", I, exc=e.exc, loc=e.loc)
        except Cut as e:
            p = Path("cut", I, value=e if isinstance(e, Endless) else str(e), loc=getattr(e, "loc", None))
        except Unsupported as e:
            p = Path("unsupported", I, value=str(e), loc=I.loc())
        except RecursionError:
            p = Path("unsupported", I, value="analyser recursion", loc=None)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("YVERIF_DEBUG"):
                raise
            p = Path("unsupported", I, value=f"analyser {type(e).__name__}: {e}", loc=None)
        paths.append(p)
        n += 1
        if I.global_mutated:
            program.reload()
        tr = I.trace
        while tr and tr[-1][0] >= tr[-1][1] - 1:
            tr.pop()
        if not tr:
            break
        if n >= max_paths or enough is not None and enough(p):
            complete = False
            break
        prefix = [t[0] for t in tr[:-1]] + [tr[-1][0] + 1]
    return paths, complete
