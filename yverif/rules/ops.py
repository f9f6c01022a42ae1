"""Every public operation of instance nodes, for the effect rules (C01, C02)."""
from .common import *


def tree(sc):
    """An instance tree populating most of the abstract schema."""
    t = sc.token
    c = sc.objd({
        "a": t("a"), "b": t("b"),
        "l": sc.arr(sc.objd({"k": t("k0"), "v": t("v0"), "ic": sc.objd({"z": t("z0")})}),
                    sc.objd({"k": t("k1"), "v": t("v1")}), sc.objd({"k": t("k2")})),
        "ll": sc.arr(t("e0"), t("e1"), t("e2")),
        "lr": t("a"), "ir": Lst("tuple", [K("d1"), K("m")]),
        "d": sc.objd({"x": t("x")}),
        "p": sc.objd({"q": t("q")}),
        "kl": sc.arr(sc.objd({"u": t("u0")})),
    })
    return sc.objd({"m:c": c})


def raw_tree():
    from ..world import pydict
    return pydict({"a": "x", "ll": ["one", "two"], "d": {"x": "y"}, "l": [{"k": "x1", "v": "y1"}]})


def table():
    """(name, focus path, fn(ctx, inst))"""
    new = lambda x: x.sc.token("new")
    ops = []

    def op(name, focus, fn):
        ops.append((name, focus, fn))
    C = ("m:c",)
    op("__getitem__", C, lambda x, n: x.sc.member(n, "l"))
    op("__getitem__", C + ("l",), lambda x, n: x.sc.member(n, 1))
    op("__iter__", C, lambda x, n: Lst("list", x.I.iterate(n)))
    op("__iter__", C + ("ll",), lambda x, n: Lst("list", x.I.iterate(n)))
    for f in (C, C + ("l",), C + ("l", 1), C + ("l", 1, "v"), C + ("ll", 1)):
        op("path", f, lambda x, n: x.attr(n, "path"))
        op("json_pointer", f, lambda x, n: x.call(n, "json_pointer"))
        op("instance_route", f, lambda x, n: x.call(n, "instance_route"))
        op("up", f, lambda x, n: x.call(n, "up"))
        op("top", f, lambda x, n: x.call(n, "top"))
        op("is_internal", f, lambda x, n: x.call(n, "is_internal"))
        op("raw_value", f, lambda x, n: x.call(n, "raw_value"))
        op("__str__", f, lambda x, n: x.I.str_(n))
    op("to_xml", (), lambda x, n: x.call(n, "to_xml"))
    op("to_xml", C, lambda x, n: x.call(n, "to_xml"))
    op("sibling", C + ("a",), lambda x, n: x.call(n, "sibling", K("l")))
    op("sibling", C + ("l",), lambda x, n: x.call(n, "sibling", K("a")))
    for m in ("next", "previous"):
        op(m, C + ("ll", 1), lambda x, n, m=m: x.call(n, m))
        op(m, C + ("l", 1), lambda x, n, m=m: x.call(n, m))
    for m in ("insert_before", "insert_after", "update"):
        op(m, C + ("ll", 1), lambda x, n, m=m: x.call(x.call(n, m, new(x)), "up"))
        op(m, C + ("l", 1), lambda x, n, m=m: x.call(x.call(n, m, x.sc.objd({"k": new(x)})), "top"))
        op(m + "(raw)", C + ("ll", 1), lambda x, n, m=m: x.call(n, m, K("raw"), TRUE))
    op("update(raw)", C + ("ll",), lambda x, n: x.call(n, "update", Lst("list", [K("r")]), TRUE))
    op("update(raw)", C, lambda x, n: x.call(x.call(n, "update", raw_tree(), TRUE), "top"))
    op("delete_item", C, lambda x, n: x.call(n, "delete_item", K("a")))
    op("delete_item", C, lambda x, n: x.call(x.call(n, "delete_item", K("l")), "top"))
    op("delete_item", C + ("l",), lambda x, n: x.call(x.call(n, "delete_item", K(1)), "top"))
    op("delete_item", C + ("ll",), lambda x, n: x.call(n, "delete_item", K(0)))
    op("put_member", C, lambda x, n: x.call(x.call(n, "put_member", K("a"), new(x)), "top"))
    op("put_member", C, lambda x, n: x.call(n, "put_member", K("c1a"), new(x)))
    op("put_member(raw)", C, lambda x, n: x.call(n, "put_member", K("ll"), Lst("list", [K("r")]), TRUE))
    op("put_member;put_member", C, lambda x, n: x.call(x.call(x.call(x.call(n, "put_member", K("a"), new(x)), "up"), "put_member", K("b"), new(x)), "top"))
    op("look_up", C + ("l",), lambda x, n: x.call(n, "look_up", k=x.sc.token("k1")))
    op("look_up(raw)", C + ("l",), lambda x, n: x.call(n, "look_up", TRUE, k=K("kk")))
    op("merge", C + ("a",), lambda x, n: x.call(x.call(n, "merge", new(x)), "top"))
    op("merge", C + ("ll",), lambda x, n: x.call(x.call(n, "merge", x.sc.arr(x.sc.token("e1"), new(x))), "top"))
    op("merge", C + ("l",), lambda x, n: x.call(x.call(n, "merge", x.sc.arr(x.sc.objd({"k": x.sc.token("k1"), "v": new(x)}), x.sc.objd({"k": new(x)}))), "top"))
    op("merge", C + ("d",), lambda x, n: x.call(x.call(n, "merge", x.sc.objd({"y": new(x)})), "top"))
    op("merge", C, lambda x, n: x.call(x.call(n, "merge", x.sc.objd({"a": new(x), "c1a": new(x), "d": x.sc.objd({"x": new(x)})})), "top"))
    op("merge(raw)", C, lambda x, n: x.call(n, "merge", raw_tree(), TRUE))
    op("add_defaults", (), lambda x, n: x.call(n, "add_defaults"))
    op("add_defaults(tag)", (), lambda x, n: x.call(n, "add_defaults", tag=TRUE))
    op("add_defaults", C + ("l",), lambda x, n: x.call(n, "add_defaults"))
    op("add_defaults", C + ("d",), lambda x, n: x.call(n, "add_defaults"))
    op("add_defaults;merge", (), lambda x, n: x.call(x.sc.member(x.call(x.call(n, "delete_item", K("m:c")), "add_defaults"), "m:c", "ll"), "merge", x.sc.arr(new(x))))

    def route(x, n, text, meth):
        r = x.call(x.sc.dm, "parse_instance_id", K(text))
        return x.call(n, meth, r)
    for text in ("/m:c/l[k='zz']/v", "/m:c/l[2]/k", "/m:c/a", "/m:c/ll[2]"):
        for meth in ("peek", "goto"):
            op(meth, (), lambda x, n, text=text, meth=meth: route(x, n, text, meth))

    def xp(x, n, text):
        sctx = x.sc.new("SchemaContext", x.attr(x.sc.dm, "schema_data"), K("m"),
                        Lst("tuple", [K("m"), K("2020-01-01")]))
        e = x.call(x.sc.new("XPathParser", K(text), sctx), "parse")
        return x.call(e, "evaluate", n)
    for text in ("../a", "l[1]/v", "l/k", "ll", "//z", "l[2]/preceding-sibling::l/k", "l[2]/following-sibling::l",
                 "../c/descendant-or-self::k", "l/k | ll", "deref(lr)", "current()/a", "count(l)", "ch | c1a | d/y", "*",
                 "l/ancestor::c", "l/ancestor-or-self::l"):
        op(f"xpath {text}", C, lambda x, n, text=text: xp(x, n, text))
    return ops


def run_ops(ck, judge, skip=()):
    w = full_world(ck)
    cfg = Config(iter_max=2, steps=200000)
    for i, (name, focus, fn) in enumerate(table()):
        def t(x, name=name, focus=focus, fn=fn):
            sc = x.sc
            root = sc.root(tree(sc))
            insts = [root]
            inst = root
            for k in focus:
                inst = sc.member(inst, k)
                insts.append(inst)
            judge(x, name, focus, fn, insts)
        ck.scenario(f"{name}@{'/'.join(map(str, focus)) or '/'}", t, w, cfg, max_paths=400 if ck.tier == "quick" else 4000)
