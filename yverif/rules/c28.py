"""C28: metadata annotations are attached, checked and returned."""
from .common import *
from .types import TYPES
from .c10 import spec, canon, alike, NO
from .c11 import L
from ..world import S, leaf as sleaf, module

ATYPES = [n for n in TYPES if n not in ("leafref",)]


def mods():
    md = lambda name, t, *s: S("annotation", name, t, *s, pref="md")
    imp = S("import", "ietf-yang-metadata", S("prefix", "md"))
    an = module("an", imp, md("note", S("type", "string")), md("cnt", S("type", "uint8")), md("tag", S("type", "boolean")))
    m = module("m", imp, S("feature", "on"), S("feature", "off"), S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "d1")),
               *[md("a-" + n, TYPES[n]) for n in ATYPES], md("note", S("type", "uint8")), md("yes", S("type", "string"), S("if-feature", "on")), md("no", S("type", "string"), S("if-feature", "off")),
               md("id2", S("type", "identityref", S("base", "base"))),
               sleaf("top"), sleaf("num", "uint8"), sleaf("string"), sleaf("int8", "int8"),
               S("container", "c", sleaf("a"), sleaf("b", "uint16"), S("leaf-list", "ll", S("type", "uint8")), S("container", "e", sleaf("z"), sleaf("dz", "string", S("default", "q"))), S("anydata", "ad"),
                 S("choice", "ch", sleaf("c1"), S("container", "c2", sleaf("c2a"))),
                 S("list", "l", S("key", "k"), S("unique", "v"), sleaf("k"), sleaf("v"), S("container", "ic", sleaf("iz")), S("list", "n", S("key", "nk"), sleaf("nk"), sleaf("nv"))),
                 S("list", "kl", S("config", "false"), sleaf("u"))))
    o = module("o", S("import", "m", S("prefix", "m")), S("augment", "/m:c", sleaf("oa"), S("container", "oc", sleaf("ol"))))
    return [m, an, module("ietf-yang-metadata", prefix="md"), o]


def wld(ck):
    return world(ck, "c28", lambda p: World(p, mods(), {"m": {"feature": ["on"]}}))


# (tree with MARK where the metadata object goes, path of the annotated node)
MARK = "<md>"
PLACES = [({"m:top": "x", "@m:top": MARK}, "/m:top"), ({"@m:top": MARK, "m:top": "x"}, "/m:top"), ({"m:num": 3, "m:c": {"a": "x", "@a": MARK, "b": 5}}, "/m:c/a"), ({"m:c": {"@b": MARK, "a": "x", "b": 5}}, "/m:c/b"),
          ({"m:c": {"@": MARK, "a": "x"}, "m:num": 3}, "/m:c"), ({"m:c": {"@": MARK}}, "/m:c"), ({"m:c": {"e": {"@": MARK, "z": "1"}}}, "/m:c/e"), ({"m:c": {"e": {"z": "1", "@z": MARK}}}, "/m:c/e/z"),
          ({"m:c": {"l": [{"k": "1", "@": MARK}, {"k": "2"}]}}, None), ({"m:c": {"l": [{"k": "1"}, {"k": "2", "v": "x", "@": MARK}]}}, None), ({"m:c": {"l": [{"k": "1", "v": "y", "@v": MARK}]}}, None),
          ({"m:c": {"l": [{"k": "1", "ic": {"@": MARK, "iz": "z"}}]}}, None), ({"m:c": {"l": [{"k": "1", "n": [{"nk": "2", "@": MARK}]}]}}, None), ({"m:c": {"l": [{"k": "1", "n": [{"nk": "2", "nv": "3", "@nv": MARK}]}]}}, None),
          ({"m:c": {"kl": [{"u": "1", "@": MARK}, {"u": "1"}]}}, None), ({"m:c": {"kl": [{"u": "1", "@u": MARK}]}}, None), ({"m:c": {"o:oa": "x", "@o:oa": MARK}}, "/m:c/o:oa"), ({"m:c": {"o:oc": {"@": MARK, "ol": "x"}}}, "/m:c/o:oc"),
          ({"m:c": {"c1": "x", "@c1": MARK}}, "/m:c/c1"), ({"m:c": {"c2": {"@": MARK, "c2a": "x"}}}, "/m:c/c2"), ({"m:c": {"ll": [1, 2], "@ll": MARK}}, "/m:c/ll")]


def put(t, md, name=MARK):
    if t == MARK:
        return md
    if isinstance(t, dict):
        return {k: put(a, md) for k, a in t.items()}
    if isinstance(t, list):
        return [put(a, md) for a in t]
    return t


def strip(t):
    if isinstance(t, dict):
        return {k: strip(a) for k, a in t.items() if k[0] != "@"}
    if isinstance(t, list):
        return [strip(a) for a in t]
    return t


def plain(x, v):
    """Python data of a concrete abstract value."""
    v = x.I.force(v)
    if isinstance(v, Obj) and v.payload is not None:
        v = v.payload
    if isinstance(v, Lst):
        r = [plain(x, a) for a in v.items]
        return tuple(r) if v.kind == "tuple" else r
    if isinstance(v, Dct):
        return {plain(x, k): plain(x, a) for k, a in v.entries}
    if isinstance(v, K):
        return v.val
    return ("?", show(term_of(v)))


def decode(x, raw):
    return x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(raw)))


def checked(ck):
    w = wld(ck)
    RAWS = [5, -5, 300, True, None, "", "5", "1.5", "abc", "one", "two one", "YWI=", "m:d1", "m:base", "d2", "/m:int8", [None], [], [1], {}, {"@": 1}, 1.5]

    def one(n):
        def t(x):
            for raw in RAWS:
                want = spec(n, raw)
                if want is None:
                    continue
                for pi, (tpl, path) in enumerate(PLACES):
                    if pi not in (0, 2, 5, 9, 17) and raw not in (5, "one"):
                        continue
                    d = put(tpl, {"m:a-" + n: raw})
                    r = decode(x, d)
                    if want is NO:
                        x.expect(r == ("raise", "AnnotationTypeError"), "annotation-type-checked", "InternalNode._process_metadata", f"{n} annotation value {raw!r} in {d}: {r[1] if r[0] == 'raise' else 'accepted'}")
                        if r == ("raise", "AnnotationTypeError") and path:
                            p = plain(x, x.attr(x.last.exc, "path"))
                            x.expect(p == path, "annotation-error-path", "InternalNode._process_metadata", f"the error for {d} names {p!r} instead of {path!r}")
                        continue
                    if not x.expect(r[0] == "ok", "annotation-accepted", "InternalNode._process_metadata", f"{n} annotation value {raw!r} in {d} is rejected: {r[1]}"):
                        continue
                    o = x.attempt(lambda: plain(x, x.call(r[1], "raw_value")))
                    back = put(tpl, {"m:a-" + n: canon(n, want)[1]})
                    x.expect(o == ("ok", back), "annotation-returned", "InstanceNode.raw_value", f"{d} is output as {o[1]!r}, expected {back!r}")
        return t
    for n in ATYPES:
        ck.scenario(f"type/{n}", one(n), w, Config(steps=10**7))


class _R:
    """attempt() that tolerates plain results."""


def attempt_plain(x, fn):
    r = [None]

    def g():
        r[0] = fn()
        return NONE
    a = x.attempt(g)
    return ("ok", r[0]) if a[0] == "ok" else a


def places(ck):
    w = wld(ck)

    def t(x):
        for tpl, path in PLACES:
            for md, out, exc in (({"an:note": "hi"}, None, None), ({"an:note": "hi", "m:note": 7, "an:cnt": 9}, None, None), ({"an:tag": True}, None, None), ({"m:yes": "y"}, None, None), ({"m:id2": "m:d2"}, None, None),
                                 ({"m:note": "hi"}, None, "AnnotationTypeError"), ({"an:note": 7}, None, "AnnotationTypeError"), ({"an:cnt": 256}, None, "AnnotationTypeError"), ({"an:note": "hi", "an:cnt": "x"}, None, "AnnotationTypeError"),
                                 ({"an:nix": "x"}, None, "UndefinedAnnotation"), ({"nix:note": "x"}, None, "UndefinedAnnotation"), ({"an:cnt": 1, "an:nix": "x"}, None, "UndefinedAnnotation"), ({"m:no": "x"}, None, "UndefinedAnnotation"),
                                 ({"an:a": "x"}, None, "UndefinedAnnotation"), ({"m:cnt": 5}, None, "UndefinedAnnotation"), ({"m:top": "x"}, None, "UndefinedAnnotation"), (5, None, "RawTypeError"), ([], None, "RawTypeError"), (None, None, "RawTypeError"), ("x", None, "RawTypeError")):
                if isinstance(md, list) and path == "/m:c/ll":
                    continue            # the RFC 7952 form for leaf-lists; not demanded here
                d = put(tpl, md)
                r = decode(x, d)
                if exc:
                    x.expect(r == ("raise", exc), {"UndefinedAnnotation": "unknown-annotation-rejected"}.get(exc, "annotation-type-checked"), "InternalNode._process_metadata", f"{d}: {r[1] if r[0] == 'raise' else 'accepted'} instead of {exc}")
                    continue
                if not x.expect(r[0] == "ok", "annotation-accepted", "InternalNode._process_metadata", f"{d} is rejected: {r[1]}"):
                    continue
                o = attempt_plain(x, lambda: plain(x, x.call(r[1], "raw_value")))
                x.expect(o == ("ok", d), "annotation-returned", "InstanceNode.raw_value", f"{d} is output as {o[1]!r}")
    ck.scenario("places", t, w, Config(steps=10**7))

    def tt(x):
        # the target must be a member of the same object, given in either spelling
        for d in ({"@m:top": {}}, {"m:c": {"@a": {"an:note": "x"}}}, {"m:c": {"b": 1, "@a": {"an:note": "x"}}}, {"m:c": {"l": [{"k": "1", "@v": {}}]}}, {"m:top": "x", "@m:num": {}}, {"m:c": {"e": {}, "@z": {}}}):
            r = decode(x, d)
            x.expect(r == ("raise", "MissingAnnotationTarget"), "annotation-target", "InternalNode.from_raw", f"{d}: {r[1] if r[0] == 'raise' else 'accepted'} instead of MissingAnnotationTarget")
        for d, want in (({"m:c": {"m:a": "x", "@m:a": {"an:note": "n"}}}, {"m:c": {"a": "x", "@a": {"an:note": "n"}}}), ({"m:c": {"m:e": {"z": "1", "@": {"an:note": "n"}}}}, {"m:c": {"e": {"z": "1", "@": {"an:note": "n"}}}}),
                        ({"m:c": {"@m:b": {"an:cnt": 1}, "m:b": 1}}, {"m:c": {"b": 1, "@b": {"an:cnt": 1}}})):
            r = decode(x, d)
            if x.expect(r[0] == "ok", "annotation-accepted", "InternalNode.from_raw", f"{d} is rejected: {r[1]}"):
                o = attempt_plain(x, lambda: plain(x, x.call(r[1], "raw_value")))
                x.expect(o == ("ok", want), "annotation-returned", "InstanceNode.raw_value", f"{d} is output as {o[1]!r}")
    ck.scenario("targets", tt, w, Config(steps=10**7))

    def tm(x):
        # several annotated nodes at once
        md = lambda s: {"an:note": s}
        d = {"m:top": "x", "@m:top": md("1"), "m:num": 3, "@m:num": md("2"),
             "m:c": {"@": md("3"), "a": "x", "@a": md("4"), "b": 5, "@b": md("5"), "e": {"@": md("6"), "z": "1", "@z": md("7")},
                     "l": [{"@": md("8"), "k": "1", "@k": md("9"), "n": [{"@": md("10"), "nk": "1"}, {"nk": "2"}]}, {"k": "2"}, {"@": md("11"), "k": "3"}], "o:oa": "y", "@o:oa": md("12")}}
        r = decode(x, d)
        if not x.expect(r[0] == "ok", "annotation-accepted", "InternalNode.from_raw", f"{d} is rejected: {r[1]}"):
            return
        o = attempt_plain(x, lambda: plain(x, x.call(r[1], "raw_value")))
        x.expect(o == ("ok", d), "annotation-returned", "InstanceNode.raw_value", f"{d} is output as {o[1]!r}")
        # edits elsewhere leave them in place
        for what, path, op, f in (("put_member", ("m:c",), lambda i: x.call(i, "put_member", K("a"), K("new")), lambda t: t["m:c"].__setitem__("a", "new")),
                                  ("update", ("m:c", "e", "z"), lambda i: x.call(i, "update", K("new")), lambda t: t["m:c"]["e"].__setitem__("z", "new")),
                                  ("update", ("m:c", "l", 1, "k"), lambda i: x.call(i, "update", K("new")), lambda t: t["m:c"]["l"][1].__setitem__("k", "new")),
                                  ("delete_item", ("m:c", "l"), lambda i: x.call(i, "delete_item", K(1)), lambda t: t["m:c"]["l"].pop(1)),
                                  ("merge", (), lambda i: x.call(i, "merge", L({"m:c": {"a": "new"}}), TRUE), lambda t: t["m:c"].__setitem__("a", "new")),
                                  ("merge", ("m:c",), lambda i: x.call(i, "merge", L({"l": [{"k": "3", "v": "new"}]}), TRUE), lambda t: t["m:c"]["l"][2].__setitem__("v", "new")),
                                  ("merge", ("m:c",), lambda i: x.call(i, "merge", L({"a": "x", "@a": md("new")}), TRUE), lambda t: t["m:c"].__setitem__("@a", md("new"))),
                                  ("merge", ("m:c",), lambda i: x.call(i, "merge", L({"l": [{"k": "3", "@": md("new")}]}), TRUE), lambda t: t["m:c"]["l"][2].__setitem__("@", md("new")))):
            i = x.sc.member(r[1], *[K(p) for p in path])
            o = attempt_plain(x, lambda: plain(x, x.call(x.call(op(i), "top"), "raw_value")))
            want = put(d, None)
            f(want)
            x.expect(o == ("ok", want), "annotation-kept", "InstanceNode." + what, f"after {what} at {'/'.join(map(str, path)) or '/'} output is {o[1]!r}, expected {want!r}")
    ck.scenario("many", tm, w, Config(steps=10**7))


def hidden(ck):
    """Annotated trees behave as the same trees without annotations."""
    w = wld(ck)

    def names(x, i):
        v = x.I.force(x.I.call(Ext("builtins.list"), [i]))
        return [plain(x, a) for a in v.items]

    def nodes(x, v):
        return sorted("/".join(str(p) for p in plain(x, x.attr(n, "path"))) for n in seq(x.I, v))

    OPS = [("__iter__", lambda x, c: names(x, c)), ("_member_names", lambda x, c: plain(x, x.call(c, "_member_names"))),
           ("_children", lambda x, c: nodes(x, x.call(c, "_children"))), ("_descendants", lambda x, c: nodes(x, x.call(c, "_descendants"))),
           ("validate", lambda x, c: plain(x, x.call(c, "validate", x.attr(x.I.p.cls("ValidationScope"), "all"), x.attr(x.I.p.cls("ContentType"), "all")))),
           ("__str__", lambda x, c: plain(x, x.I.call(Ext("builtins.str"), [x.call(c, "raw_value")])) if False else None),
           ("up", lambda x, c: (plain(x, x.attr(c, "path")), plain(x, x.attr(x.call(c, "add_defaults"), "path"))))]

    def t(x):
        for tpl, path in PLACES:
            d = put(tpl, {"an:note": "hi"})
            a, b = decode(x, d), decode(x, strip(d))
            if not x.expect(a[0] == "ok" and b[0] == "ok", "annotation-accepted", "InternalNode.from_raw", f"{d}: {a[1]}"):
                continue
            trail = [()]
            if "m:c" in d:
                trail += [("m:c",)] + [("m:c", k) for k in d["m:c"] if k[0] != "@"] + [("m:c", l, i) for l in ("l", "kl") for i in range(len(d["m:c"].get(l, [])))]
            for tr in trail:
                ia, ib = x.sc.member(a[1], *[K(p) for p in tr]), x.sc.member(b[1], *[K(p) for p in tr])
                isobj = isinstance(x.attr(ia, "value"), Obj) and x.attr(ia, "value").cls.name == "ObjectValue"
                for nm, op in OPS:
                    if not isobj and nm in ("__iter__", "_member_names"):
                        continue
                    ra, rb = attempt_plain(x, lambda: op(x, ia)), attempt_plain(x, lambda: op(x, ib))
                    x.expect(ra == rb, "annotation-not-a-member", "InstanceNode." + nm, f"{nm} at {'/'.join(map(str, tr)) or '/'} of {d} gives {ra[1]!r}, without annotations {rb[1]!r}", getattr(x, "last", None) and ra[0] == "raise" and x.last.loc or None)
                ra, rb = (attempt_plain(x, lambda i=i: strip(plain(x, x.call(x.call(x.call(i, "add_defaults"), "top"), "raw_value")))) for i in (ia, ib))
                x.expect(ra == rb, "annotation-not-a-member", "InstanceNode.add_defaults", f"add_defaults at {'/'.join(map(str, tr)) or '/'} of {d} gives {ra[1]!r}, without annotations {rb[1]!r}")
                ra = attempt_plain(x, lambda: plain(x, x.call(x.call(x.call(ia, "add_defaults"), "top"), "raw_value")))
                rd = attempt_plain(x, lambda: plain(x, x.call(a[1], "raw_value")))
                x.expect(rd[0] == "ok" and rd[1] == d, "annotation-returned", "InstanceNode.raw_value", f"{d} is output as {rd[1]!r}")
                if isobj:
                    for key in ("@", "@a", "@m:top", "@k"):
                        r = x.attempt(lambda: x.I.getitem(ia, K(key)))
                        x.expect(r[0] == "raise" and r[1] in ("NonexistentSchemaNode", "NonexistentInstance"), "annotation-not-a-member", "InstanceNode.__getitem__", f"member {key!r} of {d} is reported as {r[1]}")
    ck.scenario("hidden", t, w, Config(steps=10**7))


def run(ck):
    ck.floor = 400
    checked(ck)
    places(ck)
    hidden(ck)
