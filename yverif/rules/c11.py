"""C11: whatever raw data is given, decoding returns an instance or raises a documented error."""
from decimal import Decimal
from .common import *
from .types import TYPES
from .c10 import KIND
from ..world import S, leaf as sleaf, module

JSON = ("none", "bool", "int", "float", "str", "list", "dict")


def dmodule():
    ann = module("an", S("import", "ietf-yang-metadata", S("prefix", "md")), S("annotation", "note", S("type", "string"), pref="md"), S("annotation", "cnt", S("type", "uint8"), pref="md"))
    m = module("m", S("identity", "base"), S("identity", "d1", S("base", "base")),
               *[S("leaf", n, t) for n, t in TYPES.items()],
               S("container", "c", sleaf("a"), S("leaf-list", "ll", S("type", "uint8")), S("list", "l", S("key", "k j"), sleaf("k"), sleaf("j", "uint8"), sleaf("v"), S("container", "ic", sleaf("z"))),
                 S("list", "kl", S("config", "false"), sleaf("u")), S("anydata", "ad"), S("choice", "ch", sleaf("c1"), S("container", "c2", sleaf("c2a"))),
                 S("container", "p", S("presence", "yes"), sleaf("q"))),
               S("rpc", "op", S("input", None, sleaf("i1")), S("output", None, sleaf("o1"))), S("notification", "nt", sleaf("n1")))
    return [m, ann, module("ietf-yang-metadata", prefix="md")]


def wld(ck):
    return world(ck, "c11", lambda p: World(p, dmodule()))


def L(v):
    if isinstance(v, V):
        return v
    if isinstance(v, list):
        return Lst("list", [L(a) for a in v])
    if isinstance(v, dict):
        return Dct([(K(k), L(a)) for k, a in v.items()])
    return K(v)


HOLE = "<hole>"


def fill(t, h):
    if t == HOLE:
        return h
    if isinstance(t, dict):
        return {k: fill(a, h) for k, a in t.items()}
    if isinstance(t, list):
        return [fill(a, h) for a in t]
    return t


# template, path of the hole, JSON kinds allowed there
HOLES = [({"m:" + n: HOLE}, "/m:" + n, KIND[n]) for n in TYPES] + [
    (HOLE, "", {"dict"}), ({"m:c": HOLE}, "/m:c", {"dict"}), ({"m:c": {"a": HOLE}}, "/m:c/a", {"str"}), ({"m:c": {"ll": HOLE}}, "/m:c/ll", {"list"}), ({"m:c": {"ll": [HOLE]}}, None, {"int"}),
    ({"m:c": {"ll": [1, HOLE]}}, None, {"int"}), ({"m:c": {"l": HOLE}}, "/m:c/l", {"list"}), ({"m:c": {"l": [HOLE]}}, None, {"dict"}),
    ({"m:c": {"l": [{"k": "a", "j": 1}, HOLE]}}, None, {"dict"}), ({"m:c": {"l": [{"k": HOLE, "j": 1}]}}, None, {"str"}), ({"m:c": {"l": [{"k": "a", "j": HOLE}]}}, None, {"int"}),
    ({"m:c": {"l": [{"k": "a", "j": 1, "ic": HOLE}]}}, None, {"dict"}), ({"m:c": {"l": [{"k": "a", "j": 1, "ic": {"z": HOLE}}]}}, None, {"str"}), ({"m:c": {"kl": HOLE}}, "/m:c/kl", {"list"}), ({"m:c": {"kl": [HOLE]}}, None, {"dict"}),
    ({"m:c": {"ad": HOLE}}, "/m:c/ad", set(JSON)), ({"m:c": {"c1": HOLE}}, "/m:c/c1", {"str"}), ({"m:c": {"c2": HOLE}}, "/m:c/c2", {"dict"}), ({"m:c": {"c2": {"c2a": HOLE}}}, "/m:c/c2/c2a", {"str"}),
    ({"m:c": {"p": HOLE}}, "/m:c/p", {"dict"}), ({"m:op": HOLE}, "/m:op", {"dict"}), ({"m:op": {"input": HOLE}}, None, {"dict"}), ({"m:op": {"m:input": HOLE}}, None, {"dict"}), ({"m:op": {"m:input": {"i1": HOLE}}}, None, {"str"}), ({"m:nt": HOLE}, "/m:nt", {"dict"}), ({"m:nt": {"n1": HOLE}}, None, {"str"}),
    ({"m:c": {"a": "x", "@a": HOLE}}, None, {"dict"}), ({"m:c": {"a": "x", "@a": {"an:note": HOLE}}}, None, {"str"}), ({"m:c": {"a": "x", "@a": {"an:cnt": HOLE}}}, None, {"int"}), ({"m:c": {"@": HOLE}}, None, {"dict"}), ({"m:c": {"@": {"an:note": HOLE}}}, None, {"str"}),
    ({"m:c": {"l": [{"k": "a", "j": 1, "@": HOLE}]}}, None, {"dict"}), ({"m:c": {"ll": [1], "@ll": HOLE}}, None, None), ({"m:c": {"ll": [1], "@ll": [HOLE]}}, None, None), ({"@": HOLE}, None, {"dict"}), ({"m:string": "x", "@m:string": HOLE}, None, {"dict"})]
TEXT = ["", "x", "0", "-1", "NaN", "Infinity", "/", "/m:", "/m:int8", "/m:c[", "/m:c/l[k='a", "/m:c/l[1", "/m:nix/x", "m:", ":d1", "m:d1", "nix:d1", "one two", "\u00e9", "1e400", "9" * 30, "'", "[.=", "//", "/ ", "@", "\n"]
NAMES = ["", ":", "m:", ":a", "a", "m:nix", "nix:a", "m:c:a", "@", "@@", "@nix", "@m:c", "/", "m:ch", "m:c1", "@:", "m:@a", " m:c", "ietf-yang-metadata:annotation"]


def documented(x, exc):
    c = exc.cls
    return isinstance(c, Cls) and x.p.issub(c, x.p.cls("YangsonException"))


def decode(x, raw, what, via="from_raw", sub=None, validate=True):
    """Runs the decoder; returns the instance, or the exception object."""
    r = x.attempt(lambda: x.call(x.sc.dm, via, raw, *([K(sub)] if sub else [])))
    if r[0] == "ok":
        if validate:
            v = x.attempt(lambda: x.call(r[1], "validate"))
            x.expect(v[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "InstanceNode.validate", f"validating what was decoded from {what} raises {v[1]}", x.last.loc if v[0] == "raise" else None)
            v = x.attempt(lambda: x.call(r[1], "raw_value"))
            x.expect(v[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "InstanceNode.raw_value", f"encoding what was decoded from {what} raises {v[1]}", x.last.loc if v[0] == "raise" else None)
        return r[1]
    x.expect(documented(x, x.last.exc), "documented-errors-only", "InternalNode.from_raw" if via == "from_raw" else "InternalNode.from_xml", f"decoding {what} raises {r[1]}", x.last.loc)
    m = x.attempt(lambda: x.I.call(Ext("builtins.str"), [x.last.exc])) if documented(x, x.last.exc) else ("ok", K(""))
    x.expect(m[0] == "ok", "printable-error", r[1], f"the error for {what} cannot be printed: {m[1]}")
    return r


def holes(ck):
    w = wld(ck)
    for tpl, path, ok in HOLES:
        for k in JSON:
            def t(x, tpl=tpl, path=path, ok=ok, k=k):
                if k == "str" and path and path[3:] in TYPES:
                    return
                hole = Sym(("raw",), {k}) if k not in ("list", "dict", "none") else None
                for h in ([hole] if hole is not None else [NONE] if k == "none" else [Lst("list", []), Lst("list", [K(1)]), Lst("list", [NONE]), Lst("list", [Dct(())])] if k == "list" else [Dct(()), Dct([(K("k"), K(1))]), Dct([(K("@"), Dct(()))]), Dct([(K("an:nix"), K(1))])]):
                    what = f"JSON {k} {show(term_of(h))} at the hole of {tpl}"
                    r = decode(x, L(fill(tpl, h)), what, validate=not (isinstance(h, Sym) and path and path[3:] in TYPES))
                    if isinstance(r, tuple) and ok is not None and k not in ok and r[1] == "RawTypeError" and path is not None:
                        p = x.attr(x.last.exc, "path")
                        x.expect(isinstance(p, K) and p.val == path, "error-path", "SchemaNode.from_raw", f"the error for {what} names {p!r}")
                    if ok is not None and k not in ok:
                        x.expect(isinstance(r, tuple) and r[0] == "raise", "wrong-kind-rejected", "SchemaNode.from_raw", f"{what} is accepted")
            ck.scenario(f"decode/{HOLES.index((tpl, path, ok))}{path or ''}/{k}", t, w, max_paths=400)


def texts(ck):
    w = wld(ck)
    for tpl, path, ok in HOLES:
        if not (ok is None or "str" in ok):
            continue

        def t(x, tpl=tpl):
            for s in TEXT:
                decode(x, L(fill(tpl, K(s))), f"text {s!r} at the hole of {tpl}")
        ck.scenario(f"texts/{HOLES.index((tpl, path, ok))}", t, w, Config(steps=10**6))


def members(ck):
    w = wld(ck)

    def t(x):
        for n in NAMES:
            for v in (1, "x", None, {}, [], {"a": "x"}):
                for tpl in ({n: v}, {"m:c": {n: v}}, {"m:c": {"a": "x", n: v}}, {"m:c": {"l": [{"k": "a", "j": 1, n: v}]}}, {"m:nt": {n: v}}, {"m:op": {n: v}}):
                    r = decode(x, L(tpl), f"member name {n!r} in {tpl}")
                    if n in ("m:nix", "nix:a", "m:c:a", "/", "m:ch", "") and "m:op" not in tpl:
                        x.expect(isinstance(r, tuple) and r[1] == "RawMemberError", "unknown-member-rejected", "InternalNode.from_raw", f"unknown member {n!r} in {tpl} is {'accepted' if not isinstance(r, tuple) else 'reported as ' + r[1]}")
                        if isinstance(r, tuple) and r[1] == "RawMemberError":
                            p = x.attr(x.last.exc, "path")
                            want = "/" + n if n in tpl else "/m:nt/" + n if "m:nt" in tpl else "/m:c/" + n if "l" not in tpl["m:c"] else None
                            x.expect(want is None or isinstance(p, K) and p.val == want, "error-path", "InternalNode.from_raw", f"the error for {tpl} names {p!r} instead of {want!r}")
    ck.scenario("members", t, w, Config(steps=10**7))

    def ts(x):
        for sub in ("m:nt", "m:op", "m:nix", "nix:nt", "nt", ":nt", "m:", "m:c", "m:string"):
            for raw in ({}, {"m:nt": {}}, {"m:nt": {"n1": "x"}}, {"m:input": {"i1": "x"}}, {"m:op": {}}, {"m:n1": "x"}, 5, None, [], {"m:input": 1}):
                decode(x, L(raw), f"{raw} with subschema {sub}", sub=sub)
    ck.scenario("subschema", ts, w, Config(steps=10**7))

    def tp(x):
        # error paths are those of the offending member, also after an annotated sibling
        for raw, want in (({"m:c": {"a": "x", "@a": {"an:note": "n"}, "l": 1}}, "/m:c/l"), ({"m:string": "x", "@m:string": {"an:note": "n"}, "m:c": 1}, "/m:c"), ({"m:c": {"@": {"an:note": "n"}, "a": 1}}, "/m:c/a"),
                          ({"m:c": {"@a": {"an:note": "n"}, "a": 1}}, "/m:c/a")):
            r = decode(x, L(raw), f"{raw}")
            ok = isinstance(r, tuple) and r[1] == "RawTypeError"
            p = x.attr(x.last.exc, "path") if ok else None
            x.expect(ok and isinstance(p, K) and p.val == want, "error-path", "InternalNode.from_raw", f"the error for {raw} names {p!r} instead of {want!r}")
        r = decode(x, L({"m:string": "x", "@m:string": {"an:note": "n"}, "m:c": {"a": "y"}, "m:nt": {"n1": "z"}}), "annotated top-level leaf")
        x.expect(not isinstance(r, tuple), "annotation-does-not-disturb-siblings", "InternalNode.from_raw", f"members after an annotated top-level leaf: {r}")
        if not isinstance(r, tuple):
            x.expect([k for k, v in entries(x.I, x.attr(r, "value"))] == ["m:string", "@m:string", "m:c", "m:nt"], "annotation-does-not-disturb-siblings", "InternalNode.from_raw", f"decoded members {[k for k, v in entries(x.I, x.attr(r, 'value'))]}")
    ck.scenario("paths", tp, w, Config(steps=10**7))


def edits(ck):
    w = wld(ck)
    OPS = [("update", lambda x, i, v: x.call(i, "update", v, TRUE)), ("merge", lambda x, i, v: x.call(i, "merge", v, TRUE))]

    def t(x):
        root = x.call(x.sc.dm, "from_raw", L({"m:c": {"a": "x", "ll": [1], "l": [{"k": "a", "j": 1}], "p": {}}}))
        spots = {"root": (root, "dict"), "c": (x.sc.member(root, "m:c"), "dict"), "a": (x.sc.member(root, "m:c", "a"), "str"), "ll": (x.sc.member(root, "m:c", "ll"), "list"), "l": (x.sc.member(root, "m:c", "l"), "list"),
                 "ll0": (x.sc.member(root, "m:c", "ll", K(0)), "int"), "l0": (x.sc.member(root, "m:c", "l", K(0)), "dict")}
        vals = {"none": None, "bool": True, "int": 1, "float": 1.5, "str": "x", "list": [], "list1": [1], "listn": [None], "listd": [{}], "dict": {}, "dictx": {"nix": 1}, "dict@": {"@": 5}, "dictc": {"m:c": 5}}
        for sn, (i, kind) in spots.items():
            for vn, v in vals.items():
                for on, op in OPS:
                    r = x.attempt(lambda: op(x, i, L(v)))
                    x.expect(r[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "InstanceNode." + on, f"{on} of {sn} with raw {v!r} raises {r[1]}", x.last.loc if r[0] == "raise" else None)
                    if r[0] == "ok" and vn[:4] not in (kind, kind + "x") and not (kind == "list" and vn.startswith("list")) and not (kind == "dict" and vn.startswith("dict")) and vn != kind:
                        x.expect(False, "wrong-kind-rejected", "InstanceNode." + on, f"{on} of {sn} accepts raw {v!r}")
        for parent, nm in (("root", "m:c"), ("c", "a"), ("c", "ll"), ("c", "l"), ("c", "nix"), ("c", "p"), ("c", "ad"), ("a", "x"), ("ll", "x"), ("l", "k"), ("root", "nix:x"), ("root", "m:nt"), ("l0", "v")):
            for vn, v in vals.items():
                r = x.attempt(lambda: x.call(spots[parent][0], "put_member", K(nm), L(v), TRUE))
                x.expect(r[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "InstanceNode.put_member", f"put_member {nm} under {parent} with raw {v!r} raises {r[1]}", x.last.loc if r[0] == "raise" else None)
        for e, k in (("ll0", "leaf-list"), ("l0", "list")):
            for vn, v in vals.items():
                for op in ("insert_before", "insert_after"):
                    r = x.attempt(lambda: x.call(spots[e][0], op, L(v), TRUE))
                    x.expect(r[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "ArrayEntry." + op, f"{op} in {k} with raw {v!r} raises {r[1]}", x.last.loc if r[0] == "raise" else None)
        for vn, v in vals.items():
            for s in ("ll", "l"):
                r = x.attempt(lambda: x.call(spots[s][0], "look_up", **({"k": L(v), "j": L(v)} if s == "l" else {})))
                x.expect(r[0] == "ok" or documented(x, x.last.exc), "documented-errors-only", "InstanceNode.look_up", f"look_up in {s} with {v!r} raises {r[1]}", x.last.loc if r[0] == "raise" else None)
    ck.scenario("edits", t, w, Config(steps=10**7))


def run(ck):
    ck.floor = 1000
    holes(ck)
    texts(ck)
    members(ck)
    edits(ck)
