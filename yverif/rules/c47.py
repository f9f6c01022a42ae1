"""C47: a data model survives pickling.

The command line tool stores data models by pickle and works with the restored
ones.  The abstract heap of a compiled model is taken through the pickle
protocol: everything reachable must be picklable, objects are created without
__init__, containers are refilled before the state of their object is there,
hooks (__reduce__, __getstate__, __setstate__, __new__, __getattr__) are
interpreted, and module and class level state is what it was when the program
was loaded.  What comes out must behave like the original."""
from .common import *
from .c11 import L
from .c19 import digest_value
from .c28 import plain
from .c34 import widened
from .schema import differences, dump
from .types import tmodule
from ..extern import hash_of
from ..interp import Mod
from ..values import Bound, BuiltinMethod, Cls, Ext, Fn, Native, Prop
from ..world import S, leaf as sleaf, module, reach

STREAMS = ("io.", "socket", "threading.", "_thread", "weakref", "sqlite3", "subprocess", "argparse.", "types.", "logging.Handler", "contextlib.", "generator", "memoryview", "tempfile.", "contextvars.", "os.scandir", "urllib.request")


class Unpicklable(Exception):
    pass


def shown(path):
    return "dm" + path


def where_fn(p, f):
    """(found, qualified name): is a function found again by its qualified name?"""
    q = getattr(f, "qual", "?")
    v = f.module.env.get(q.split(".")[0])
    for k in q.split(".")[1:]:
        r = p.find(v, k) if isinstance(v, Cls) else None
        v = r[1] if r else None
    while v is not None and not isinstance(v, Fn) and hasattr(v, "fn"):
        v = v.fn
    return isinstance(v, Fn) and v.node is f.node, q


class Pickler:
    """Copies the heap as pickle.loads(pickle.dumps(root)) does."""

    def __init__(self, x):
        self.x, self.memo, self.bad = x, {}, []

    def fail(self, path, why):
        self.bad.append((shown(path), why))

    def method(self, cls, name):
        r = self.x.p.find(cls, name) if isinstance(cls, Cls) else None
        return r[1] if r and isinstance(r[1], (Fn,)) or r and hasattr(r[1], "fn") else None

    def copy(self, v, path=""):
        x, I = self.x, self.x.I
        v = I.force(v)
        if id(v) in self.memo:
            return self.memo[id(v)][0]
        if isinstance(v, K):
            if type(v.val).__module__ not in ("builtins", "decimal", "datetime", "pathlib", "re", "collections", "fractions") or type(v.val).__name__ in ("generator", "function", "module", "memoryview"):
                self.fail(path, f"a {type(v.val).__name__} object")
            return v
        if isinstance(v, Sym):
            return v
        if isinstance(v, Mod):
            self.fail(path, f"module {v.name}")
            return v
        if isinstance(v, Cls):
            if v.module.env.get(v.name) is not v and not any(isinstance(c, Cls) and v in c.ns.values() for c in v.module.env.values()):
                self.fail(path, f"class {v.name}, which is local to a function")
            return v
        if isinstance(v, Ext):
            return v
        if isinstance(v, Native):
            return v
        if isinstance(v, Fn):
            ok, q = where_fn(x.p, v)
            if not ok:
                self.fail(path, f"function {q}, which cannot be found by its name")
            return v
        if isinstance(v, Bound):
            s = self.copy(v.self_, path + ".__self__")
            f = v.fn
            name = getattr(f, "qual", "?").split(".")[-1]
            c = s if isinstance(s, Cls) else getattr(s, "cls", None)
            r = x.p.find(c, name) if isinstance(c, Cls) else None
            if r is None or getattr(getattr(r[1], "fn", r[1]), "node", None) is not getattr(f, "node", 0):
                self.fail(path, f"bound method {name}, which cannot be found by its name")
            return Bound(f, s)
        if isinstance(v, BuiltinMethod):
            return BuiltinMethod(self.copy(v.recv, path + ".__self__"), v.name, v.base)
        if isinstance(v, Lst):
            if v.kind == "iter":
                self.fail(path, "an iterator or generator")
                return v
            r = Lst(v.kind, [], v.label, v.name, v.site, v.ordered)
            self.memo[id(v)] = r, v
            for i, e in enumerate(v.items):
                c = self.copy(e, f"{path}[{i}]")
                if v.kind in ("set", "frozenset"):
                    self.hashed(c, path)
                r.items.append(c)
            return r
        if isinstance(v, Dct):
            r = Dct((), v.rest, v.label, v.name, v.site)
            self.memo[id(v)] = r, v
            self.fill(r, v, path)
            return r
        if isinstance(v, Obj):
            return self.obj(v, path)
        self.fail(path, f"a {type(v).__name__}")
        return v

    def fill(self, r, v, path):
        for k, e in v.entries:
            kk = self.copy(k, path + ".key")
            self.hashed(kk, path)
            r.entries.append([kk, self.copy(e, f"{path}[{getattr(k, 'val', k)!r}]")])

    def hashed(self, k, path):
        """Keys and set elements are hashed while their own state may still be missing."""
        if isinstance(k, Obj) and isinstance(k.cls, Cls) and not k.cls.enum:
            r = self.x.attempt(lambda: hash_of(self.x.I, k, None))
            if r[0] != "ok":
                self.fail(path, f"an object of class {k.cls.name} that is hashed before its state is restored: {r[1]}")

    def obj(self, v, path):
        x, I = self.x, self.x.I
        cls = v.cls
        if isinstance(cls, Ext):
            if cls.name.startswith(STREAMS) and not cls.name.startswith("types.SimpleNamespace"):
                self.fail(path, f"an object of {cls.name}")
                return v
            r = Obj(cls, v.name, {}, v.lazy, v.label, None, v.exact, v.site)
            self.memo[id(v)] = r, v
            if v.payload is not None:
                r.payload = self.copy(v.payload, path)
                r.payload.owner = r
            r.fields = {k: a if isinstance(a, Native) else self.copy(a, f"{path}.{k}") for k, a in v.fields.items()}
            return r
        if cls.enum:
            return v
        self.copy(cls, path)
        for hook in ("__reduce_ex__", "__reduce__"):
            if self.method(cls, hook):
                return self.reduced(v, I.force(x.call(v, hook, *([K(5)] if hook == "__reduce_ex__" else []))), path)
        exc = x.p.issub(cls, Ext("builtins.BaseException"))
        args = []
        for hook in ("__getnewargs_ex__", "__getnewargs__"):
            if self.method(cls, hook):
                g = I.force(x.call(v, hook))
                args = [self.copy(a, path) for a in g.items] if hook == "__getnewargs__" else [self.copy(a, path) for a in I.force(g.items[0]).items]
                break
        new = self.method(cls, "__new__")
        if exc:
            a = I.force(v.fields.get("args", Lst("tuple", [])))
            r = I.force(I.instantiate(cls, [self.copy(i, path) for i in seq(I, a)], {}))
        elif new:
            r = I.force(I.call(getattr(new, "fn", new), [cls] + args))
        else:
            r = Obj(cls, v.name, {}, v.lazy, v.label, None, v.exact, v.site)
            r.isin, r.notin = set(v.isin), set(v.notin)
        self.memo[id(v)] = r, v
        if not v.exact:
            r.exact = v.exact
        if self.method(cls, "__getattr__"):
            g = x.attempt(lambda: I.getattr_(r, "__setstate__"))
            if g[0] != "ok" and g[1] != "AttributeError":
                self.fail(path, f"an object of class {cls.name} whose __getattr__ fails without its attributes: {g[1]}")
        state = {k: a for k, a in v.fields.items()}
        if self.method(cls, "__getstate__"):
            state = x.call(v, "__getstate__")
        if v.payload is not None:
            if r.payload is None:
                r.payload = Lst(v.payload.kind, [], v.payload.label) if isinstance(v.payload, Lst) else Dct((), v.payload.rest, v.payload.label)
                r.payload.owner = r
            if isinstance(v.payload, Lst):
                add = self.method(cls, "extend")
                for i, e in enumerate(v.payload.items):
                    c = self.copy(e, f"{path}[{i}]")
                    if add:
                        I.call(Bound(add, r), [Lst("list", [c])])
                    else:
                        r.payload.items.append(c)
            else:
                put = self.method(cls, "__setitem__")
                for k, e in v.payload.entries:
                    kk = self.copy(k, path + ".key")
                    self.hashed(kk, path)
                    c = self.copy(e, f"{path}[{getattr(k, 'val', k)!r}]")
                    if put:
                        a = x.attempt(lambda: I.call(Bound(put, r), [kk, c]))
                        if a[0] != "ok":
                            self.fail(path, f"an object of class {cls.name} whose __setitem__ fails without its attributes: {a[1]}")
                    else:
                        r.payload.entries.append([kk, c])
        setter = self.method(cls, "__setstate__")
        if isinstance(state, dict):
            if setter:
                if state:
                    I.call(Bound(getattr(setter, "fn", setter), r), [Dct([(K(k), self.copy(a, f"{path}.{k}")) for k, a in state.items()])])
            else:
                for k, a in state.items():
                    r.fields[k] = self.copy(a, f"{path}.{k}")
        else:
            st = self.copy(state, path)
            if setter:
                if I.truth(st):
                    I.call(Bound(getattr(setter, "fn", setter), r), [st])
            elif isinstance(I.force(st), Dct):
                for k, a in I.force(st).entries:
                    r.fields[I.force(k).val] = a
        return r

    def reduced(self, v, red, path):
        I = self.x.I
        if isinstance(red, K):
            return v
        its = [I.force(i) for i in red.items]
        f = its[0]
        self.copy(f, path)
        r = I.force(I.call(f, [self.copy(a, path) for a in I.force(its[1]).items]))
        self.memo[id(v)] = r, v
        st = its[2] if len(its) > 2 else NONE
        if not (isinstance(st, K) and st.val is None):
            s = self.copy(st, path)
            if self.method(r.cls, "__setstate__"):
                self.x.call(r, "__setstate__", s)
            else:
                for k, a in I.force(s).entries:
                    r.fields[I.force(k).val] = a
        for e in seq(I, its[3]) if len(its) > 3 and not isinstance(its[3], K) else []:
            self.x.call(r, "append", self.copy(e, path))
        for e in seq(I, its[4]) if len(its) > 4 and not isinstance(its[4], K) else []:
            k, a = [self.copy(i, path) for i in I.force(e).items]
            I.setitem(r, k, a)
        return r


class Globals:
    """State of modules, classes and default arguments: what a new process starts with."""

    def __init__(self, p):
        self.p = p
        self.spaces = [(m, dict(m.env)) for m in p.modules.values()] + [(c, dict(c.ns)) for c in p.classes.values()]
        roots = {}
        for o, d in self.spaces:
            for k, v in d.items():
                roots[f"{o.name}.{k}"] = v
                for i, z in enumerate(list(getattr(v, "defaults", None) or []) + list((getattr(v, "kwdefaults", None) or {}).values())):
                    roots[f"{o.name}.{k}({i})"] = z
        self.saved = [(v, self.content(v)) for v, _ in reach(roots).values()]

    def content(self, v):
        return dict(v.fields) if isinstance(v, Obj) else list(v.items) if isinstance(v, Lst) and not isinstance(v.items, tuple) else [list(e) for e in v.entries] if isinstance(v, Dct) else None

    def restore(self):
        for o, d in self.spaces:
            cur = o.env if hasattr(o, "env") else o.ns
            cur.clear()
            cur.update(d)
        for v, c in self.saved:
            if isinstance(v, Obj):
                v.fields = dict(c)
            elif isinstance(v, Lst) and c is not None:
                v.items[:] = c
            elif isinstance(v, Dct):
                v.entries[:] = [list(e) for e in c]


class Real(World):
    """XPath expressions are parsed for real."""

    def install(self, I):
        super().install(I)
        I.stubs.pop("XPathParser", None)


MUSTS = ["a = 'x' or b != 2 and not(c < 3)", "-(1 + 2) * 3 div 4 mod 5 - 6 > 7", "count(//m:l[m:k = '1'] | ../m:c/*) >= 0", "string-length(concat(string(.), 'a', \"b\")) > 0", "contains(translate('abc', 'a', 'b'), 'b') = true()", "starts-with(substring-before('a/b', '/'), 'a')", "substring('abc', 2, 1) = 'b' and substring('ab', 1) = 'ab'",
         "position() = last()", "preceding-sibling::*[1] or following-sibling::m:l or ancestor-or-self::node() or self::m:c", "sum(//m:n) + floor(1.5) + ceiling(0.5) + round(2.4) >= 0", "name() = local-name()", "normalize-space('  a ') = 'a' and boolean(1) and number('2') = 2 and not(false())", "re-match('abc', 'a.c') and derived-from-or-self(../m:c/m:i, 'm:base') or derived-from(m:i, 'm:base')",
         "deref(m:r)/../m:k = '1' or 1", "current()/m:a = current()/m:a or true()", "bit-is-set(m:bits, 'one') or enum-value(m:en) >= 0 or 1", "(//m:l)[1]/m:k | child::m:l[position() = 2] or 1", "descendant::m:k or parent::node() or 1"]


def xmodule():
    return module("m", S("identity", "base"), S("identity", "d1", S("base", "base")), S("typedef", "td", S("type", "string", S("pattern", "[a-z]+", S("error-message", "no"))), S("default", "dd"), S("units", "u")),
        S("container", "c", *[S("must", e) for e in MUSTS], sleaf("a", "td"), sleaf("b", "uint8"), sleaf("i", S("type", "identityref", S("base", "base"))), sleaf("r", S("type", "leafref", S("path", "../l/k"))), sleaf("bits", S("type", "bits", S("bit", "one"), S("bit", "two"))), sleaf("en", S("type", "enumeration", S("enum", "e1"), S("enum", "e2"))), sleaf("n", S("type", "decimal64", S("fraction-digits", "2"))),
          S("list", "l", S("key", "k"), sleaf("k"), sleaf("w", "string", S("when", "../k = '1'"))), sleaf("ii", "instance-identifier"), sleaf("lr2", S("type", "union", S("type", "leafref", S("path", "../b")), S("type", "td", S("length", "1..4")))),
          S("leaf-list", "dl", S("type", "td"), S("default", "x"), S("default", "y"))))


XDOCS = [{}, {"m:c": {"a": "x", "b": 1, "i": "m:d1", "r": "1", "bits": "one", "en": "e2", "n": "1.5", "l": [{"k": "1", "w": "q"}, {"k": "2"}], "ii": "/m:c/b", "lr2": "abc"}}, {"m:c": {"a": "X1"}}, {"m:c": {"b": 300}}, {"m:c": {"r": "9"}}, {"m:c": {"l": [{"k": "2", "w": "q"}]}}, {"m:c": {"l": [{"k": "1"}, {"k": "1"}]}}, {"m:c": {"i": "m:base"}}, {"m:nix": 1}]
FDOCS = [{}, {"m:c": {"a": "x", "l": [{"k": "1", "v": "a"}, {"k": "2"}], "ll": ["p"], "c2a": "q", "ir": "m:d1", "un": "3", "w": "1", "d": {"x": "1"}, "p": {"q": "1"}, "ad": {"z": [1]}, "kl": [{"u": "1"}]}}, {"m:c": {"p": {}}}, {"m:c": {"c1a": "1", "c2a": "2"}}, {"m:c": {"l": [{"v": "1"}]}}, {"m:c": {"lr": "y", "a": "x"}}, {"m:c": {"l": [{"k": "1", "v": "a"}, {"k": "2", "v": "a"}]}}]
TDOCS = [{}]


def behaviour(x, dm, docs):
    """Everything a user sees of a model, as plain values."""
    I = x.I
    out = []

    class View:
        pass
    v = View()
    v.dm = dm
    schema = I.force(x.attr(dm, "schema"))

    def ask(what, f, conv=lambda v: plain(x, v)):
        r = x.attempt(f)
        out.append((what, conv(r[1]) if r[0] == "ok" else "raises " + r[1]))
        return r[1] if r[0] == "ok" else None
    out.append(("schema_digest", digest_value(x, v)))
    ask("ascii_tree", lambda: x.call(dm, "ascii_tree"))
    ask("module_set_id", lambda: x.call(dm, "module_set_id"))
    ask("yang_library", lambda: x.attr(dm, "yang_library"))
    E = lambda n, c: I.getattr_(x.p.cls(c), n)
    for d in docs:
        i = ask(f"from_raw({d})", lambda: x.call(dm, "from_raw", L(d)), lambda v: plain(x, x.call(v, "raw_value")))
        if i is None:
            continue
        ask(f"validation of {d}", lambda: x.call(i, "validate", E("all", "ValidationScope"), E("all", "ContentType")))
        ask(f"defaults of {d}", lambda: x.call(i, "add_defaults", E("all", "ContentType")), lambda v: plain(x, x.call(v, "raw_value")))
        ask(f"counters after {d}", lambda: x.call(dm, "ascii_tree", val_count=K(True)))
    return out


def run(ck):
    ck.floor = 2500
    cfg = Config(steps=6 * 10**7, rec=200, depth=600)
    from .c45 import shapes
    from .scopes import base, models
    cases = {"xpath": (Real, [xmodule()], XDOCS), "full": (Real, [widened()], FDOCS), "types": (Real, [tmodule()], TDOCS), "shapes": (World, shapes(), [{}])}
    for name, (mods, subs) in models().items():
        if name in ("plain", "submodule-far", "augment", "deviation"):
            cases["scopes-" + name] = (World, (mods + base(), subs), [{}])
    for name, (W, mods, docs) in cases.items():
        def t(x, name=name, W=W, mods=mods, docs=docs):
            from .scopes import FEATURES
            g = Globals(x.p)
            w = W(x.p, mods[0], {k: {"feature": v, **({"submodule": [{"name": z[1], "revision": "2020-01-01"} for z in mods[1]]} if k == "m" and mods[1] else {})} for k, v in FEATURES.items()}, mods[1]) if isinstance(mods, tuple) else W(x.p, mods)
            for used in (False, True):
                dm = I_build(x, w)
                if used:
                    behaviour(x, dm, docs)     # what is computed on demand is there
                before = dump(x, x.I.force(x.attr(dm, "schema")))
                pk = Pickler(x)
                r = x.attempt(lambda: pk.copy(dm))
                how = f"{name} model{', after use,' if used else ''}"
                if not x.expect(r[0] == "ok", "picklable", "DataModel", f"the {how} cannot be pickled and restored: {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None):
                    continue
                ck.count("picklable", len(pk.memo))
                if not x.expect(not pk.bad, "picklable", "DataModel", "; ".join(f"{p} holds {why}" for p, why in pk.bad[:3]) + f" ({how})"):
                    continue
                cdm = r[1]
                after = dump(x, x.I.force(x.attr(dm, "schema")))
                d = differences(before, after)
                x.expect(not d, "pickling-keeps-original", "DataModel", f"pickling changes the {how}: {d[:1]}")
                d = differences(before, dump(x, x.I.force(x.attr(cdm, "schema"))))
                x.expect(not d, "restored-schema", "DataModel", f"the restored {how} differs at {d[0][0] if d else ''}, {d[0][1] if d else ''}")
                want = behaviour(x, dm, docs)
                g.restore()
                got = behaviour(x, cdm, docs)
                for (what, a), (_, b) in zip(want, got):
                    x.expect(a == b, "restored-behaviour", what.partition("(")[0].split(" of ")[0], f"{what} of the restored {how} is {brief(b)} instead of {brief(a)}")
                x.expect(len(want) == len(got), "restored-behaviour", "DataModel", f"the restored {how} behaves differently")
        ck.scenario(name, t, None, cfg)


def brief(v):
    s = str(v)
    return s if len(s) < 160 else s[:160] + "..."


def I_build(x, w):
    return x.I.force(w.build(x.I))
