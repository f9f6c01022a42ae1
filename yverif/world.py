"""Abstract worlds: a data model built by abstract interpretation of the
repository's own schema construction over an abstract YANG module, and
instance trees whose leaves are uninterpreted tokens."""
from __future__ import annotations
import os
import re

from .values import *
from .model import AnalysisBroken
from .interp import Interp, Config, AbsRaise, Cut, Unsupported, explore, fmt_loc


def S(kw, arg=None, *subs, pref=None):
    """Specification of one YANG statement of the abstract module."""
    if isinstance(arg, tuple):          # a statement without argument
        arg, subs = None, (arg,) + subs
    return (kw, arg, subs, pref)


def module(name, *subs, prefix=None, ns=None, rev="2020-01-01"):
    return S("module", name,
             S("namespace", ns or "urn:" + name), S("prefix", prefix or name),
             S("revision", rev), *subs)


def leaf(name, typ="string", *subs):
    return S("leaf", name, S("type", typ) if isinstance(typ, str) else typ, *subs)


ATOM = re.compile(r"x-[\w-]+$")


def atom_parser(I, a, kw):
    """XPath expressions spelled x-NAME are uninterpreted conditions: their
    value is a Boolean symbol of the name and the context node's path."""
    if not (a and isinstance(a[0], K) and isinstance(a[0].val, str) and ATOM.match(a[0].val)):
        return None
    o = Obj(Ext("XPathParserStub"), "xpath:" + a[0].val)
    o.exact = False
    o.fields["parse"] = Native(lambda I, b, kw: atom_expr(I, a[0].val), "parse")
    o.fields["at_end"] = Native(lambda I, b, kw: TRUE, "at_end")
    return o


def atom_expr(I, name):
    e = Obj(I.p.cls("Expr"), "expr:" + name)

    def ev(I, b, kw):
        node = I.force(b[0])
        if isinstance(node, Obj) and isinstance(node.cls, Cls) and node.cls.name == "XPathContext":
            node = I.force(I.getattr_(node, "cnode"))
        path = I.force(I.getattr_(node, "path"))
        pt = tuple(x.val for x in (path.payload or path).items) if isinstance(path, Obj) else tuple(x.val for x in path.items)
        I.xlog.append((name, pt, node))
        return Sym(("xp", name, pt), {"bool"})
    e.fields["evaluate"] = Native(ev, "evaluate")
    e.fields["_eval"] = Native(ev, "_eval")
    e.fields["__str__"] = Native(lambda I, b, kw: K(name), "__str__")
    return e


def pydict(x):
    if isinstance(x, dict):
        return Dct([(K(k), pydict(v)) for k, v in x.items()])
    if isinstance(x, list):
        return Lst("list", [pydict(v) for v in x])
    return x if isinstance(x, V) else K(x)


def build_stmt(I, spec, parent=None):
    kw, arg, subs, pref = spec
    c = I.p.cls("Statement")
    o = I.instantiate(c, [K(kw), arg if isinstance(arg, V) else K(arg), K(pref)], {})
    if parent is not None:
        I.setattr_(o, "superstmt", parent)
    I.setattr_(o, "substatements", Lst("list", [build_stmt(I, s, o) for s in subs]))
    return o


class World:
    """One abstract data model."""
    rejections = None       # a list, when somebody wants to know why models were rejected

    def __init__(self, program, modules, library=None, submodules=()):
        self.p = program
        self.modules = list(modules)
        self.submodules = list(submodules)
        self.library = library or {}
        self.I = None
        self.dm = None
        self.rejected = None

    def lib(self):
        ents = []
        for m in self.modules:
            name = m[1]
            rev = next((s[1] for s in m[2] if s[0] == "revision"), "")
            e = {"name": name, "revision": rev, "namespace": "urn:" + name,
                 "conformance-type": "implement"}
            e.update(self.library.get(f"{name}@{rev}", self.library.get(name, {})))
            ents.append(e)
        return {"ietf-yang-library:modules-state": {"module-set-id": "id", "module": ents}}

    def install(self, I):
        specs = {}
        revision = lambda m: next((s[1] for s in m[2] if s[0] == "revision"), "")
        for m in self.modules + self.submodules:
            specs[f"{m[1]}@{revision(m)}"] = m
            if m[1] not in specs or revision(m) >= revision(specs[m[1]]):
                specs[m[1]] = m

        def fopen(I, a, kw):
            nm = a[0]
            if not isinstance(nm, K):
                raise Unsupported("open of unknown file name")
            base = nm.val.rsplit("/", 1)[-1]
            if base.endswith(".yang"):
                base = base[:-5]
            if base not in specs:
                I.raise_ext("builtins.FileNotFoundError")
            f = Obj(Ext("io.TextIOWrapper"), "file:" + base)
            f.exact = False
            f.fields["read"] = Native(lambda I, a, kw: K("@module " + base), "read")
            return f

        def parser(I, a, kw):
            base = a[0].val.split()[1]
            o = Obj(Ext("ModuleParserStub"), "parser:" + base)
            o.exact = False
            o.fields["parse"] = Native(lambda I, a, kw: build_stmt(I, specs[base]), "parse")
            return o
        I.extstub["builtins.open"] = fopen
        I.extstub["io.open"] = fopen
        I.extstub["json.loads"] = lambda I, a, kw: pydict(self.lib())
        I.stubs["ModuleParser"] = parser
        I.stubs["XPathParser"] = atom_parser

    def build(self, I):
        """Construct the DataModel inside interpreter I (abstractly)."""
        self.install(I)
        return I.instantiate(self.p.cls("DataModel"), [K("{}"), Lst("tuple", [K("/mods")])], {})

    def prepare(self):
        """Build once without decisions; clones are handed to scenarios."""
        if self.rejected is not None:
            raise self.rejected
        if self.dm is None:
            I = Interp(self.p, [], Config(steps=10 ** 7))
            try:
                self.dm = self.build(I)
            except AbsRaise as e:
                if World.rejections is not None:
                    World.rejections.append((I, e))
                self.rejected = ModelRejected(f"raises {getattr(e.exc.cls, 'name', '?')} {I_args(e.exc)}", fmt_loc(e.loc))
                self.rejected.exc = e.exc
                raise self.rejected
            except (Unsupported, Cut, AnalysisBroken):
                raise
            except Exception as e:
                if os.environ.get("YVERIF_DEBUG"):
                    raise
                raise WorldError(f"analyser {type(e).__name__}: {e}")
            if I.trace:
                raise WorldError(f"data model construction is not deterministic: {I.trace[:3]}")
        return self

    def scene(self, I):
        self.prepare()
        return Scene(I, clone(self.dm))


class WorldError(Unsupported):
    pass


class ModelRejected(Unsupported):
    def __init__(self, msg, loc):
        super().__init__(msg)
        self.loc = loc
        self.where = (loc or "?").split()[-1]


def I_args(exc):
    return [repr(x) for x in exc.fields.values()] if isinstance(exc, Obj) else ""


def clone(root):
    memo = {}

    def cp(v):
        if not isinstance(v, (Obj, Lst, Dct, Bound, BuiltinMethod)):
            return v
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.enum:
            return v
        r = memo.get(id(v))
        if r is not None:
            return r
        if isinstance(v, Obj):
            r = Obj(v.cls, v.name, {}, v.lazy, v.label, None, v.exact, v.site)
            memo[id(v)] = r
            r.fields = {k: cp(x) for k, x in v.fields.items()}
            if v.payload is not None:
                r.payload = cp(v.payload)
                r.payload.owner = r
            r.isin, r.notin = set(v.isin), set(v.notin)
            return r
        if isinstance(v, Lst):
            r = Lst(v.kind, [], v.label, v.name, v.site)
            memo[id(v)] = r
            r.pos = v.pos
            r.items = [cp(x) for x in v.items]
            return r
        if isinstance(v, Dct):
            r = Dct((), v.rest, v.label, v.name, v.site)
            memo[id(v)] = r
            r.entries = [[cp(k), cp(x)] for k, x in v.entries]
            return r
        if isinstance(v, Bound):
            return Bound(v.fn, cp(v.self_))
        return BuiltinMethod(cp(v.recv), v.name, v.base)
    return cp(root)


def reach(roots):
    """Every abstract heap object reachable from `roots`."""
    seen = {}
    todo = [(r, str(i)) for i, r in enumerate(roots)] if not isinstance(roots, dict) else [(v, k) for k, v in roots.items()]
    while todo:
        v, path = todo.pop()
        if isinstance(v, Bound):
            v = v.self_
        if not isinstance(v, (Obj, Lst, Dct)) or id(v) in seen:
            continue
        seen[id(v)] = (v, path)
        if isinstance(v, Obj):
            for k, x in v.fields.items():
                todo.append((x, f"{path}.{k}"))
            if v.payload is not None:
                todo.append((v.payload, path))
        elif isinstance(v, Lst):
            for i, x in enumerate(v.items):
                todo.append((x, f"{path}[{i}]"))
        else:
            for k, x in v.entries:
                todo.append((x, f"{path}[{k!r}]"))
                todo.append((k, path + ".key"))
    return seen


def freeze(roots, label="shared"):
    """Label everything reachable; mutations of it are recorded as such."""
    r = reach(roots)
    for v, path in r.values():
        if v.label == "global":
            continue
        v.label = label
        if v.name is None:
            v.name = path
    return r


def snapshot(roots):
    """Structural fingerprint per reachable object (identity of children)."""
    snap = {}
    for i, (v, path) in reach(roots).items():
        if isinstance(v, Obj):
            s = tuple((k, cid(x)) for k, x in v.fields.items())
        elif isinstance(v, Lst):
            s = tuple(cid(x) for x in v.items)
        else:
            s = tuple((cid(k), cid(x)) for k, x in v.entries)
        snap[i] = (v, path, s)
    return snap


def changed(snap):
    res = []
    for i, (v, path, s) in snap.items():
        if isinstance(v, Obj):
            n = tuple((k, cid(x)) for k, x in v.fields.items())
        elif isinstance(v, Lst):
            n = tuple(cid(x) for x in v.items)
        else:
            n = tuple((cid(k), cid(x)) for k, x in v.entries)
        if n != s:
            res.append((v, path, s, n))
    return res


def cid(v):
    if isinstance(v, (Obj, Lst, Dct)):
        return id(v)
    if isinstance(v, Thunk):
        return "thunk"
    return term_of(v)


class Scene:
    def __init__(self, I, dm):
        self.I = I
        self.p = I.p
        self.dm = dm
        self.schema = dm.fields["schema"] if dm is not None else None
        self.n = 0

    # ---- access ----
    def attr(self, o, name):
        return self.I.force(self.I.getattr_(o, name))

    def call(self, o, name, *args, **kw):
        return self.I.force(self.I.call(self.I.getattr_(o, name), list(args), kw))

    def new(self, cname, *args, **kw):
        return self.I.instantiate(self.p.cls(cname), list(args), kw)

    def token(self, name, kinds=("str",), uniq=True, label=None):
        return Sym(("tok", name), kinds, uniq=uniq, label=label)

    def arr(self, *items, ts=None):
        return self.new("ArrayValue", Lst("list", list(items)), *( [ts] if ts is not None else []))

    def obj(self, ts=None, /, **entries):
        return self.objd({k.replace("_", "-"): v for k, v in entries.items()}, ts)

    def objd(self, d, ts=None):
        return self.new("ObjectValue", Dct([(K(k), v) for k, v in d.items()]), *( [ts] if ts is not None else []))

    def node(self, *path):
        """Schema node reached through `children` by local names."""
        n = self.schema
        for nm in path:
            n = child(self.I, n, nm)
        return n

    def root(self, value):
        return self.new("RootNode", value, self.schema, self.attr(self.dm, "schema_data"),
                        self.attr(value, "timestamp"))

    def member(self, inst, *names):
        for nm in names:
            inst = self.I.force(self.I.getitem(inst, K(nm) if not isinstance(nm, V) else nm))
        return inst


def child(I, n, name):
    for c in I.iterate(I.getattr_(n, "children")):
        nm = I.force(I.getattr_(c, "name"))
        if isinstance(nm, K) and nm.val == name:
            return c
    raise AnalysisBroken(f"schema node {name} was not built under {n!r}")
