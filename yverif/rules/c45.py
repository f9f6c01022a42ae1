"""C45: the ASCII tree draws the schema by the documented conventions, and the
validation counters tell how often each schema node validated an instance.

The reference works on the public attributes of schema nodes; the conventions
are those of RFC 8340 with the changes listed in docs/datamodel.rst."""
from .common import *
from .c11 import L
from .c34 import widened
from .c44 import Tree, modules
from ..world import S, leaf as sleaf, module

MARK = {"current": "+", "deprecated": "x", "obsolete": "o", "obsolete_ignored": "O"}


def field(x, n, a):
    v = x.I.force(x.attr(n, a))
    return v.val if isinstance(v, K) else v


def inside(t, n):
    """Within an operation: there flags differ from RFC 8340 (pinned by the tests of yangson)."""
    return any(a.cls.name in ("InputNode", "OutputNode", "RpcActionNode") for a in t.chain(n)[1:])


def entry(x, t, n, types, counts):
    """The line of a node without indentation; None for flags that are left open."""
    kind = n.cls.name
    nm, ns = t.qn(n)
    up = next((a for a in reversed(t.chain(n)[:-1]) if t.named(a)), None)
    name = nm if up is not None and t.qn(up)[1] == ns else f"{ns}:{nm}"
    st = x.I.force(x.attr(n, "status"))
    mark = MARK[x.I.force(x.attr(st, "name")).val]
    flags = {"RpcActionNode": "-x", "NotificationNode": "-n", "CaseNode": ":"}.get(kind)
    if flags is None:
        flags = "" if kind in ("InputNode", "OutputNode") or inside(t, n) else "ro" if t.ctype(n) == 2 else "rw"
    man = lambda: truthy(x, n, "mandatory")
    opts = ""
    if kind in ("LeafNode", "AnydataNode", "AnyxmlNode"):
        opts = "" if man() else "?"
    elif kind == "ContainerNode":
        opts = "!" if truthy(x, n, "presence") else ""
    elif kind in ("ListNode", "LeafListNode"):
        opts = "#" if truthy(x, n, "user_ordered") else "*"
        if kind == "ListNode":
            ks = [x.I.force(x.I.getitem(k, K(0))).val for k in seq(x.I, x.attr(n, "keys"))]
            opts += f" [{' '.join(ks)}]" if ks else ""
    elif kind == "ChoiceNode":
        name = f"({name})"
        opts = "" if field(x, n, "_mandatory") is True else "?"
    elif kind == "CaseNode":
        name = f"({name})"
    typ = f" <{x.I.force(x.I.str_(x.attr(n, 'type'))).val}>" if types and kind in ("LeafNode", "LeafListNode") else ""
    cnt = f" {{{field(x, n, 'val_count')}}}" if counts and kind not in ("ChoiceNode", "CaseNode") else ""
    return mark, flags, name + opts + typ + cnt


def truthy(x, n, a):
    return x.I.truth(x.attr(n, a))


def lines(x, t, types, counts):
    out = []

    def go(n, indent):
        ks = sorted(t.kids(n), key=t.qn)
        for i, k in enumerate(ks):
            out.append((indent,) + entry(x, t, k, types, counts) + (t.spath(k),))
            go(k, indent + ("   " if i == len(ks) - 1 else "|  "))
    go(t.root, "")
    return out


def compare(x, t, types, counts, what, **kw):
    r = x.attempt(lambda: x.call(x.sc.dm, "ascii_tree", **kw))
    if not x.expect(r[0] == "ok", "ascii-tree", "DataModel.ascii_tree", f"the {what} raises {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None):
        return
    text = x.I.force(r[1]).val
    got, want = text.split("\n"), lines(x, t, types, counts)
    x.expect(got[-1:] == [""] and len(got) - 1 == len(want), "ascii-tree", "DataModel.ascii_tree", f"the {what} has {len(got) - 1} lines, expected {len(want)}")
    for g, (ind, mark, flags, rest, path) in zip(got, want):
        ok = g == f"{ind}{mark}--{flags}{'' if flags == ':' else ' '}{rest}"
        if not flags:                   # inside operations
            ok = g in [f"{ind}{mark}--{f} {rest}" for f in ("ro", "rw", "-w")]
        x.expect(ok, "ascii-tree", "DataModel.ascii_tree", f"line of {path} in the {what} is {g!r}, expected {ind}{mark}--{flags or 'ro'} {rest!r}")


def shapes():
    m = module("m",
        S("typedef", "my", S("type", "string")),
        S("container", "p", S("presence", "x"), S("must", "true()"), S("list", "nk", S("config", "false"), S("ordered-by", "user"), sleaf("x"))),
        S("container", "np", sleaf("m", "string", S("mandatory", "true")), sleaf("o", "my"), sleaf("e", "empty"),
          S("choice", "cm", S("mandatory", "true"), sleaf("c1"), S("case", "c2", sleaf("c2"), sleaf("c3", "uint8", S("mandatory", "true")))),
          S("choice", "co", S("config", "false"), S("anydata", "ad", S("mandatory", "true")), S("anydata", "ae"))),
        S("list", "u", S("key", "b a"), S("ordered-by", "user"), S("min-elements", "1"), sleaf("a"), sleaf("b", "my"), S("leaf-list", "w", S("type", "my"), S("ordered-by", "user")), S("leaf-list", "v", S("type", "int8"), S("ordered-by", "system"))),
        S("container", "dep", S("status", "deprecated"), sleaf("x", "string", S("status", "deprecated")), sleaf("y"), sleaf("z", "string", S("status", "obsolete"))),
        S("container", "zz", sleaf("only")),
        S("rpc", "op", S("status", "deprecated")), S("notification", "no", S("status", "obsolete"), sleaf("x")))
    n = module("n", S("import", "m", S("prefix", "m")),
        S("augment", "/m:np", sleaf("a"), sleaf("m"), S("list", "k", S("key", "q"), sleaf("q"))),
        S("augment", "/m:np/m:co", S("case", "c9", sleaf("n9"))),
        S("augment", "/m:np", S("when", "m:m"), sleaf("zw"), S("choice", "zc", sleaf("zd"))),
        S("augment", "/m:p/m:nk", sleaf("x")))
    a = module("a", S("import", "m", S("prefix", "m")), S("augment", "/m:np", sleaf("a"), sleaf("m"), sleaf("zw")), S("augment", "/m:np/m:cm", S("case", "c2", sleaf("b2")), S("container", "c1", S("presence", "x"))), S("container", "zz"), S("notification", "no"))
    return [m, n, a]


def status(x, t, stmts):
    """The mark of a node is the status of the closest node that states one."""
    for path, want in stmts.items():
        n = next((k for k in t.nodes if t.named(k) and t.spath(k) == path), None)
        x.expect(n is not None, "status-mark", "SchemaNode.status", f"no schema node {path}")
        if n is not None:
            g = x.I.force(x.attr(x.I.force(x.attr(n, "status")), "name")).val
            x.expect(g == want, "status-mark", "SchemaNode.status", f"status of {path} is {g}, expected {want}")


DOC = {"m:c": {"a": "x", "l": [{"k": "1", "v": "a"}, {"k": "2", "v": "b"}], "ll": ["x", "y", "z"], "c1a": "q", "ir": "d1", "un": 3, "w": "1", "p": {"q": "r"}, "d": {"x": "1"}, "ad": {"z": 1}, "kl": [{"u": "1"}, {"u": "2"}, {}]}}


def count(x, t, doc):
    """Instances of every data node: entries for lists and leaf-lists."""
    res = {n: 0 for n in t.nodes}

    def go(n, v):
        for k, e in v.items():
            ns, _, nm = k.rpartition(":")
            c = t.datachild(n, nm, ns or t.qn(n)[1])
            for i in e if isinstance(e, list) else [e]:
                res[c] += 1
                if isinstance(i, dict) and "children" in c.fields:
                    go(c, i)
    go(t.root, doc)
    return res


def counters(x, t):
    dm = x.sc.dm
    E = lambda n, c: x.I.getattr_(x.p.cls(c), n)
    total = {n: 0 for n in t.nodes}
    inst = x.call(dm, "from_raw", L(DOC))
    want = count(x, t, DOC)
    for turn, (s, c) in enumerate((("all", "all"), ("syntax", "all"), ("semantics", "all"), ("all", "all"))):
        if turn == 3:
            x.call(dm, "clear_val_counters")
            total = {n: 0 for n in t.nodes}
            for n in t.nodes:
                x.expect(field(x, n, "val_count") == 0, "counters-cleared", "DataModel.clear_val_counters", f"the counter of {t.spath(n)} is not zero after clear_val_counters")
        r = x.attempt(lambda: x.call(inst, "validate", E(s, "ValidationScope"), E(c, "ContentType")))
        x.expect(r[0] == "ok", "counters", "InstanceNode.validate", f"validation ({s}) of a valid instance raises {r[1] if r[0] != 'ok' else ''}")
        for n in t.nodes:
            total[n] += want[n]
            if t.isdata[n] and not t.inop(n):
                g = field(x, n, "val_count")
                x.expect(g == total[n], "counters", f"{n.cls.name}._validate", f"validation counter of {t.spath(n)} is {g} after {turn % 3 + 1} validations, expected {total[n]}")
        compare(x, t, True, True, f"tree with counters after validation {turn + 1}", val_count=K(True))


def operations(x, t):
    """Instances of operations: their nodes are counted, and cleared with everything else."""
    dm = x.sc.dm
    by = {t.spath(n): n for n in t.nodes if t.named(n)}
    total = {}
    for turn, (raw, sub, counted) in enumerate((({"m:nt": {"n1": "x"}}, "m:nt", ["/m:nt", "/m:nt/n1"]), ({"m:op": {"input": {"i1": "x"}}}, "m:op", ["/m:op", "/m:op/input", "/m:op/input/i1"]), ({"m:op": {"output": {"o1": "x"}}}, "m:op", ["/m:op", "/m:op/output", "/m:op/output/o1"]), ({"m:nt": {"n1": "y"}}, "m:nt", ["/m:nt", "/m:nt/n1"]))):
        r = x.attempt(lambda: x.call(dm, "from_raw", L(raw), K(sub)))
        if r[0] != "ok":
            raw = raw[sub]
            raw = {("m:" + k): v for k, v in raw.items()}
            r = x.attempt(lambda: x.call(dm, "from_raw", L(raw), K(sub)))
        if not x.expect(r[0] == "ok", "counters", "DataModel.from_raw", f"instance {raw} of {sub} is rejected: {r[1]}"):
            continue
        v = x.attempt(lambda: x.call(r[1], "validate", x.I.getattr_(x.p.cls("ValidationScope"), "all"), x.I.getattr_(x.p.cls("ContentType"), "all")))
        x.expect(v[0] == "ok", "counters", "InstanceNode.validate", f"instance {raw} of {sub} is not valid: {v[1]}")
        for q in counted:
            total[q] = total.get(q, 0) + 1
        for q in counted:
            g = field(x, by[q], "val_count")
            x.expect(g == total[q], "counters", f"{by[q].cls.name}._validate", f"validation counter of {q} is {g}, expected {total[q]}")
    compare(x, t, True, True, "tree with counters after validation of operations", val_count=K(True))
    x.call(dm, "clear_val_counters")
    for n in t.nodes:
        x.expect(field(x, n, "val_count") == 0, "counters-cleared", "DataModel.clear_val_counters", f"the counter of {t.spath(n)} is not zero after clear_val_counters")


def partial(x, t):
    """Clearing at one node clears its subtree and nothing else."""
    for n in t.nodes:
        for k, m in enumerate(t.nodes):
            m.fields["val_count"] = K(k + 1)
        x.call(n, "clear_val_counters")
        bad = [t.spath(m) for k, m in enumerate(t.nodes) if field(x, m, "val_count") != (0 if n in t.chain(m) else k + 1)]
        x.expect(not bad, "counters-cleared", f"{n.cls.name}.clear_val_counters", f"clear_val_counters of {t.spath(n)} leaves or changes the counters of {', '.join(bad[:4])}")


def run(ck):
    ck.floor = 1000
    cfg = Config(steps=10**7, rec=120, depth=400)
    for name, make in (("c44", lambda p: World(p, modules())), ("c45k", lambda p: World(p, shapes(), {"m": {"yangson-yl:keep-obsolete": True}})), ("c45", lambda p: World(p, shapes())), ("sweep", lambda p: World(p, [widened()]))):
        w = world(ck, name, make)

        def t(x, name=name):
            t = Tree(x, x.I.force(x.attr(x.sc.dm, "schema")))
            compare(x, t, True, False, "tree")
            compare(x, t, False, False, "tree without types", no_types=K(True))
            compare(x, t, True, True, "tree with counters", val_count=K(True))
            compare(x, t, False, True, "tree with counters and without types", no_types=K(True), val_count=K(True))
            if name == "c45k":
                status(x, t, {"/m:dep/z": "obsolete_ignored", "/m:no": "obsolete_ignored", "/m:dep": "deprecated"})
            if name == "c45":
                status(x, t, {"/m:dep": "deprecated", "/m:dep/x": "deprecated", "/m:dep/y": "deprecated", "/m:np/o": "current", "/m:op": "deprecated", "/m:zz/only": "current", "/m:p": "current"})
        ck.scenario(f"{name} trees", t, w, cfg)
    ck.scenario("counters", lambda x: counters(x, Tree(x, x.I.force(x.attr(x.sc.dm, "schema")))), full_world(ck), cfg)
    ck.scenario("counters/operations", lambda x: operations(x, Tree(x, x.I.force(x.attr(x.sc.dm, "schema")))), full_world(ck), cfg)
    for name, make in (("c44", lambda p: World(p, modules())), ("sweep", lambda p: World(p, [widened()]))):
        ck.scenario(f"{name} clearing", lambda x: partial(x, Tree(x, x.I.force(x.attr(x.sc.dm, "schema")))), world(ck, name, make), cfg)
