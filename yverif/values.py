"""Abstract values of the analyser.

A value is a constant, an uninterpreted symbol (a provenance term with the set
of run-time kinds it may have), an abstract heap object, an abstract container,
or a callable of the analysed program.
"""
from __future__ import annotations
from decimal import Decimal

ALL_KINDS = frozenset({"none", "bool", "int", "float", "Decimal", "str", "bytes",
                       "list", "dict", "tuple", "set", "obj"})
JSON_KINDS = frozenset({"none", "bool", "int", "float", "str", "list", "dict"})


class V:
    __slots__ = ()


class K(V):
    """A constant."""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return f"K({self.val!r})"


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def kbool(b):
    return TRUE if b else FALSE


class Sym(V):
    """Uninterpreted value, identified by its provenance term."""
    __slots__ = ("term", "kinds", "rank", "uniq", "store", "cls", "label")

    def __init__(self, term, kinds=None, rank=None, uniq=False, cls=None, label=None):
        self.term = term
        self.kinds = frozenset(kinds) if kinds is not None else ALL_KINDS
        self.rank = rank          # position in a declared finite ordering
        self.uniq = uniq          # differs from every other `uniq` symbol
        self.cls = cls
        self.label = label

    def __repr__(self):
        return f"<{show(self.term)}>"


class Obj(V):
    """Abstract heap object of a class of the analysed program."""
    __slots__ = ("cls", "fields", "name", "lazy", "label", "payload", "exact", "site",
                 "isin", "notin")

    def __init__(self, cls, name, fields=None, lazy=False, label="fresh",
                 payload=None, exact=True, site=None):
        self.cls = cls
        self.name = name
        self.fields = fields if fields is not None else {}
        self.lazy = lazy
        self.label = label
        self.payload = payload
        self.exact = exact
        self.site = site
        self.isin = set()
        self.notin = set()
        if payload is not None:
            payload.owner = self

    def __repr__(self):
        c = getattr(self.cls, "name", self.cls)
        return f"{c}@{show(self.name)}" + (repr(self.payload) if self.payload is not None else "")


class Lst(V):
    """list, tuple, deque, set, frozenset or (exhausted eagerly) iterator."""
    __slots__ = ("kind", "items", "label", "name", "owner", "site", "cls", "pos", "ordered")

    def __init__(self, kind, items, label="fresh", name=None, site=None, ordered=False):
        self.kind = kind
        self.ordered = ordered     # a set that has the order of a dictionary
        self.items = items
        self.label = label
        self.name = name
        self.owner = None
        self.site = site
        self.pos = 0

    def __repr__(self):
        o, c = {"tuple": "()", "set": "{}", "frozenset": "{}"}.get(self.kind, "[]")
        return (self.kind[0] if self.kind not in ("list", "tuple") else "") + o + ", ".join(map(repr, self.items)) + c


class Dct(V):
    """dict with explicit entries and possibly an unknown rest."""
    __slots__ = ("entries", "rest", "label", "name", "owner", "site", "absent", "order_unknown", "default")

    def __init__(self, entries=(), rest=False, label="fresh", name=None, site=None):
        self.entries = [list(e) for e in entries]
        self.rest = rest          # False: exact; else: callable(interp, key) -> V
        self.label = label
        self.name = name
        self.owner = None
        self.site = site

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.entries) + (", ..." if self.rest else "") + "}"


class Fn(V):
    __slots__ = ("node", "module", "cls", "outer", "qual", "defaults", "kwdefaults", "kind", "isgen", "locals")

    def __init__(self, node, module, cls, outer, qual, defaults=(), kwdefaults=None, kind="fn"):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.kind = kind
        self.isgen = None
        self.locals = None

    def __repr__(self):
        return f"fn {self.qual}"


class Bound(V):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return f"bound {self.fn!r} of {self.self_!r}"


class BuiltinMethod(V):
    __slots__ = ("recv", "name", "base")

    def __init__(self, recv, name, base=None):
        self.recv = recv
        self.name = name
        self.base = base

    def __repr__(self):
        return f"{self.recv!r}.{self.name}"


class Prop(V):
    __slots__ = ("getter", "setter")

    def __init__(self, getter, setter=None):
        self.getter = getter
        self.setter = setter


class Static(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Cls(V):
    """Class of the analysed program."""
    __slots__ = ("name", "module", "bases", "ns", "mro", "node", "enum", "subs")

    def __init__(self, name, module, bases, node):
        self.name = name
        self.module = module
        self.bases = bases
        self.ns = {}
        self.node = node
        self.mro = None
        self.enum = False
        self.subs = []

    def __repr__(self):
        return f"class {self.name}"


class Ext(V):
    """External (stdlib or builtin) module, class or function."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ext {self.name}"


class Mod(V):
    __slots__ = ("name", "env", "tree", "path", "done", "src")

    def __init__(self, name, tree, path, src):
        self.name = name
        self.env = {}
        self.tree = tree
        self.path = path
        self.done = False
        self.src = src

    def __repr__(self):
        return f"module {self.name}"


class ImportRef(V):
    __slots__ = ("mod", "name")

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name


class SuperV(V):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Native(V):
    """Callable supplied by a scenario (environment model)."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="native"):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f"native {self.name}"


class Thunk(V):
    """Field value materialised on first access."""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


def term_of(v):
    if isinstance(v, K):
        return ("k", type(v.val).__name__, repr(v.val))
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, Obj):
        if v.payload is not None:
            return ("objv", getattr(v.cls, "name", "?"), term_of(v.payload))
        return ("obj", v.name)
    if isinstance(v, Lst):
        return (v.kind,) + tuple(term_of(x) for x in v.items)
    if isinstance(v, Dct):
        return ("dict",) + tuple((term_of(k), term_of(x)) for k, x in v.entries) + ((("rest", v.name),) if v.rest else ())
    if isinstance(v, (Fn, Cls)):
        return ("def", getattr(v, "qual", None) or v.name)
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, Bound):
        return ("bound", term_of(v.fn), term_of(v.self_))
    if isinstance(v, BuiltinMethod):
        return ("bm", term_of(v.recv), v.name)
    if isinstance(v, Native):
        return ("native", v.name)
    if isinstance(v, Mod):
        return ("mod", v.name)
    return ("?", repr(v))


def show(t):
    try:
        return show_(t)
    except (IndexError, TypeError):
        return repr(t)


def show_(t):
    if isinstance(t, tuple) and t:
        if t[0] == "k":
            return t[2]
        if t[0] == "cat":
            return "+".join(show(x) for x in t[1:])
        if t[0] == "obj":
            return show(t[1])
        if len(t) == 1:
            return f"{t[0]}()"
        return f"{show(t[0])}({', '.join(show(x) for x in t[1:])})"
    return str(t)
