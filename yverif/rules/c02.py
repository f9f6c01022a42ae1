"""C02: using instances never changes the compiled schema.

Rule: after interpreting an operation, every abstract object reachable from
the data model has the same content, except validation counters, lazily
created patterns and underscore caches that were empty before.
"""
from .common import *
from .ops import run_ops
from .c01 import content
from .c04 import build

LAZY = {"schema_pattern"}
COUNTERS = {"val_count", "error_tag", "error_message"}   # documented: statistics, last diagnostic


def diff(v, old, new):
    if isinstance(v, Obj):
        for k in set(old) | set(new):
            if old.get(k) != new.get(k):
                if k in COUNTERS:
                    continue
                if (k.startswith("_") or k in LAZY) and (k not in old or old[k] == term_of(NONE)):
                    continue
                return f"attribute {k} changed"
        return None
    if old != new:
        return f"content changed from {len(old)} to {len(new)} items" if len(old) != len(new) else "content changed"
    return None


def guarded(x, cons, what, fn):
    """Interpret fn and compare the schema before and after."""
    from ..world import reach
    g = reach([x.sc.dm])
    before = [(v, path, content(v)) for v, path in g.values()]
    n0 = len(x.I.events)
    r = x.attempt(fn)
    bad = []
    for v, path, old in before:
        d = diff(v, old, content(v))
        if d:
            loc = next((e.loc for e in x.I.events[n0:] if e.kind in ("mutate", "setattr") and e.data and
                        (e.data[0] is v or getattr(v, "owner", None) is e.data[0])), None)
            bad.append((path, d, loc))
    if bad:
        path, d, loc = bad[0]
        x.expect(False, "schema-unchanged", loc[1] if loc else cons, f"{what}: schema object dm{path[1:]}: {d}", loc)
    else:
        x.expect(True, "schema-unchanged", cons, "")
    return r


def judge(x, name, focus, fn, insts):
    cons = f"InstanceNode.{name.split(';')[-1].split('(')[0].split()[0]}"
    what = f"{name} at {'/'.join(map(str, focus)) or '/'}"
    guarded(x, cons, what, lambda: fn(x, insts[-1]))
    # caches filled by the first run belong to the schema from now on
    guarded(x, cons, what + ", repeated", lambda: fn(x, insts[-1]))
    if "defaults" in name or "xpath" in name and "*" in name:
        for tag in (TRUE, FALSE):
            guarded(x, "InstanceNode.add_defaults", f"add_defaults(tag={tag.val}) after {what}", lambda: x.call(insts[0], "add_defaults", tag=tag))


def extra(ck):
    """Queries answered from schema tables."""
    w = world(ck, "ident", lambda p: World(p, [module(
        "m", S("identity", "b1"), S("identity", "b2"),
        S("identity", "x1", S("base", "b1")), S("identity", "x2", S("base", "x1")),
        S("identity", "x3", S("base", "b1"), S("base", "b2")), S("identity", "x4", S("base", "x3")),
        S("container", "c",
          leaf("i1", S("type", "identityref", S("base", "b1"))),
          leaf("i2", S("type", "identityref", S("base", "b1"), S("base", "b2"))),
          leaf("e", S("type", "enumeration", S("enum", "one"), S("enum", "two"))),
          leaf("bi", S("type", "bits", S("bit", "p"), S("bit", "q"))),
          leaf("n", S("type", "uint8", S("range", "1..5 | 10"))),
          leaf("un", S("type", "union", S("type", "identityref", S("base", "b2")), S("type", "int8")))))]))

    def pair(n):
        return Lst("tuple", [K(n), K("m")])

    def t_ident(x):
        sd = x.attr(x.sc.dm, "schema_data")
        ids = ["b1", "b2", "x1", "x2", "x3", "x4"]
        for i in ids:
            guarded(x, "SchemaData.derived_from", f"derived_from({i})", lambda: x.call(sd, "derived_from", pair(i)))
            for j in ids:
                guarded(x, "SchemaData.is_derived_from", f"is_derived_from({i}, {j})",
                        lambda: x.call(sd, "is_derived_from", pair(i), pair(j)))
                guarded(x, "SchemaData.derived_from_all", f"derived_from_all([{i}, {j}])",
                        lambda: x.call(sd, "derived_from_all", Lst("list", [pair(i), pair(j)])))
    ck.scenario("SchemaData/identities", t_ident, w)

    def t_digest(x):
        for m in ("schema_digest", "ascii_tree", "clear_val_counters", "module_set_id"):
            guarded(x, f"DataModel.{m}", m, lambda: x.call(x.sc.dm, m))
    ck.scenario("DataModel/digest", t_digest, w)
    ck.scenario("DataModel/digest-full", t_digest, full_world(ck))

    def t_from(x):
        from ..world import pydict
        for raw in ({"m:c": {"i1": "x1", "i2": "m:x4", "e": "one", "bi": "p q", "n": 3, "un": "x4"}},
                    {"m:c": {"i1": "b1"}}, {"m:c": {"n": 7}}, {"m:z": 1}, {"m:c": {"e": "three"}}):
            guarded(x, "DataModel.from_raw", "from_raw", lambda: x.call(x.sc.dm, "from_raw", pydict(raw)))
    ck.scenario("DataModel/from_raw", t_from, w)

    def t_val(x):
        sc = x.sc
        r = sc.root(sc.objd({"m:c": sc.objd({"i1": pair("x1"), "i2": pair("x4"), "e": K("one"), "n": K(3),
                                             "bi": Lst("tuple", [K("p")]), "un": pair("x4")})}))
        guarded(x, "InstanceNode.validate", "validate", lambda: x.call(r, "validate"))
        r = sc.root(sc.objd({"m:c": sc.objd({"i2": pair("x1")})}))
        guarded(x, "InstanceNode.validate", "validate (invalid identity)", lambda: x.call(r, "validate"))
    ck.scenario("InstanceNode/validate-types", t_val, w)

    def t_lazy(x):
        sc = x.sc
        for d in ({}, {"m:c": {}}, {"m:c": {"p": {"q": 1}}}, {"m:c": {"l": [{"k": 1}], "d": {}}}):
            r = sc.root(build(sc, d))
            for i in range(2):
                for tag in (FALSE, TRUE):
                    guarded(x, "InternalNode._add_defaults", f"add_defaults(tag={tag.val}) of {d}", lambda: x.call(r, "add_defaults", tag=tag))
                guarded(x, "InstanceNode.validate", f"validation of {d}", lambda: x.call(r, "validate"))
                wd = x.attempt(lambda: x.call(r, "add_defaults"))
                if wd[0] == "ok":
                    def edit():
                        c = x.call(x.sc.member(wd[1], "m:c"), "put_member", K("a"), sc.token("new"))
                        return x.call(x.sc.member(x.call(c, "up"), "ll"), "merge", sc.arr(sc.token("z")))
                    guarded(x, "InstanceNode.put_member", f"editing the defaults of {d}", edit)
                    guarded(x, "InstanceNode.merge", f"merging into the defaults of {d}", lambda: x.call(wd[1], "merge", build(sc, {"m:c": {"d": {"x": 1}, "ll": ["q"], "l": [{"k": 2}]}})))
    ck.scenario("InstanceNode/defaults-and-edits", t_lazy, full_world(ck), Config(steps=10**6))

    def t_routes(x):
        for path in ("/m:c", "/m:c/l", "/m:c/ch", "/m:c/nope"):
            guarded(x, "DataModel.get_schema_node", f"get_schema_node({path})", lambda: x.call(x.sc.dm, "get_schema_node", K(path)))
            guarded(x, "DataModel.get_data_node", f"get_data_node({path})", lambda: x.call(x.sc.dm, "get_data_node", K(path)))
    ck.scenario("DataModel/paths", t_routes, full_world(ck))


def run(ck):
    ck.floor = 200
    run_ops(ck, judge)
    extra(ck)
