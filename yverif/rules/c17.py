"""C17: defaults appear exactly where the schema lets them apply.

The schema is described once; the repository's code is interpreted abstractly
to build the data model and to complete an instance, and the completed tree is
compared with the one RFC 7950 prescribes (spec.with_defaults) for every
combination of present members, every outcome of every `when` and each content
type."""
from .common import *
from ..spec import *
from .. import spec
from .c05 import build, variants, desc, enum, truth
from ..world import leaf as sleaf
from .c28 import plain
from .c11 import L

D = dict(default="D")

SCHEMAS = {
    "leaf": [cont("c", leaf("a", default="A"), leaf("b"), presence=True)],
    "top": [leaf("a", default="A"), leaf("b"), leaflist("l", default=["p", "q"])],
    "np": [cont("o", cont("i", leaf("a", default="A"), leaf("x")), leaf("b"))],
    "np-deep": [cont("o", cont("i", cont("j", leaf("a", default="A"))))],
    "np-empty": [cont("o", cont("i", leaf("a")), leaf("b"))],
    "presence": [cont("o", cont("i", leaf("a", default="A"), presence=True), leaf("b", default="B"))],
    "presence-deep": [cont("o", cont("i", cont("j", leaf("a", default="A")), presence=True))],
    "leaf-list": [cont("c", leaflist("l", default=["p", "q"]), leaflist("m"), leaf("a", default="A"))],
    "state": [cont("c", leaf("a", default="A"), leaf("s", config=False, default="S"), leaflist("t", config=False, default=["T"]))],
    "state-np": [cont("c", cont("s", leaf("x", default="X"), config=False), cont("k", leaf("y", default="Y")))],
    "state-deep": [cont("c", cont("k", leaf("y", config=False, default="Y")))],
    "list": [cont("c", lst("l", leaf("k", default="K"), leaf("a", default="A"), keys=("k",)), leaf("b", default="B"))],
    "list-np": [lst("l", leaf("k"), cont("d", leaf("a", default="A"), leaf("e")), keys=("k",))],
    "list-nested": [lst("l", leaf("k"), lst("n", leaf("j"), leaf("a", default="A"), keys=("j",)), keys=("k",))],
    "list-state": [lst("l", leaf("a", default="A"), leaf("b"), config=False)],
    "keyless-np": [cont("c", lst("l", cont("d", leaf("a", default="A")), config=False))],
    "choice": [cont("c", choice("ch", leaf("a", default="A"), leaf("b", default="B"), default="a"))],
    "choice-second": [cont("c", choice("ch", leaf("a", default="A"), leaf("b", default="B"), default="b"))],
    "choice-none": [cont("c", choice("ch", leaf("a", default="A"), leaf("b", default="B")))],
    "choice-container": [cont("c", choice("ch", cont("d", leaf("a", default="A")), leaf("b"), default="d"))],
    "choice-presence": [cont("c", choice("ch", cont("d", leaf("a", default="A"), presence=True), leaf("b"), default="d"))],
    "cases": [cont("c", choice("ch", case("k1", leaf("a", default="A"), leaf("b")), case("k2", leaf("d", default="DD"), leaf("e")), default="k1"))],
    "cases-none": [cont("c", choice("ch", case("k1", leaf("a", default="A"), leaf("b")), case("k2", leaf("d", default="DD"), leaf("e"))))],
    "choice-mandatory": [cont("c", choice("ch", leaf("a", default="A"), leaf("b"), mandatory=True))],
    "choice-state": [cont("c", choice("ch", leaf("a", config=False, default="A"), leaf("b", default="B"), default="a"))],
    "choice-all-state": [cont("c", choice("ch", leaf("a", default="A"), leaf("b"), default="a", config=False))],
    "choice-nested": [cont("c", choice("ch", case("k1", choice("in", leaf("a", default="A"), leaf("b", default="B"), default="b"), leaf("e", default="E")), leaf("d"), default="k1"))],
    "choice-nested-direct": [cont("c", choice("ch", choice("in", leaf("a", default="A"), leaf("b"), default="a"), leaf("d"), default="in"))],
    "choice-nested-np": [cont("c", choice("ch", case("k1", cont("n", choice("in", leaf("a", default="A"), leaf("b"), default="a"))), leaf("d")))],
    "choice-nested-other": [cont("c", choice("ch", case("k1", choice("in", leaf("a", default="A"), leaf("b")), group(leaf("f", default="F"), when="x-w")), leaf("d", default="DD"), default="d"))],
    "choice-nested-deep": [cont("c", choice("ch", case("k1", choice("in", case("k2", choice("i2", leaf("a"), leaf("b"))), leaf("e"))), leaf("d", default="DD"), default="d"), leaf("z"))],
    "choice-uses": [cont("c", choice("ch", case("k1", group(leaf("a"), cont("e", leaf("f", default="F")))), leaf("d", default="DD"), default="d"))],
    "two-choices": [cont("c", choice("c1", leaf("a", default="A"), leaf("b"), default="a"), choice("c2", leaf("d", default="DD"), leaf("e"), default="d"))],
    "choice-list": [cont("c", choice("ch", lst("l", leaf("k"), leaf("a", default="A"), keys=("k",)), leaf("b", default="B"), default="b"))],
    "choice-leaf-list": [cont("c", choice("ch", leaflist("l", default=["p"]), leaf("b"), default="l"))],
    "top-choice": [choice("ch", leaf("a", default="A"), leaf("b"), default="a"), leaf("d")],
    "when-leaf": [cont("c", leaf("a", when="x-w", default="A"), leaf("b", when="x-v", default="B"))],
    "when-leaf-list": [cont("c", leaflist("l", when="x-w", default=["p"]), leaf("b", default="B"))],
    "when-container": [cont("c", cont("d", leaf("a", default="A"), when="x-w"), leaf("b", default="B"))],
    "when-inner": [cont("c", cont("d", leaf("a", default="A", when="x-v"), when="x-w"))],
    "when-choice": [cont("c", choice("ch", leaf("a", default="A"), leaf("b", default="B"), when="x-w", default="a"), leaf("d", default="DD"))],
    "when-case": [cont("c", choice("ch", case("k1", leaf("a", default="A"), when="x-w"), case("k2", leaf("b", default="B"), when="x-v"), default="k1"))],
    "when-case-leaf": [cont("c", choice("ch", case("k1", leaf("a", default="A", when="x-v"), leaf("e", default="E"), when="x-w"), leaf("b"), default="k1"))],
    "when-list": [lst("l", leaf("k"), leaf("a", when="x-w", default="A"), keys=("k",))],
    "uses": [cont("c", group(leaf("a", default="A"), leaf("b")), leaf("d", default="DD"))],
    "uses-when": [cont("c", group(leaf("a", default="A"), leaf("b")), leaf("d", default="DD")), cont("e", group(leaf("a", default="A"), leaf("b"), when="x-w"), leaf("d", default="DD"))],
    "uses-when-np": [cont("c", group(cont("n", leaf("a", default="A")), when="x-w"))],
    "uses-when-choice": [cont("c", group(choice("ch", leaf("a", default="A"), leaf("b"), default="a"), when="x-w"))],
    "uses-nested": [cont("c", group(group(leaf("a", default="A"), when="x-v"), leaf("b", default="B"), when="x-w"))],
    "augment-when": [cont("c", group(leaf("a", default="A"), cont("e", leaf("f", default="F")), when="x-w", via="augment"), leaf("d", default="DD"))],
    "augment-choice-when": [cont("c", choice("ch", leaf("a", default="A"), group(leaf("b", default="B"), when="x-w", via="augment"), default="a"))],
    "augment-choice-default": [cont("c", choice("ch", leaf("a", default="A"), group(case("b", leaf("x", default="X")), when="x-w", via="augment"), default="b"))],
    "augment-case": [cont("c", choice("ch", case("k", leaf("a"), group(leaf("b", default="B"), when="x-w", via="augment")), leaf("d"), default="k"))],
    "anydata": [cont("c", anydata("ad"), leaf("a", default="A"))],
    "rich": [cont("c", leaf("a", default="A"), cont("d", leaf("x", default="X"), lst("l", leaf("k"), leaf("v", default="V"), keys=("k",))), choice("ch", leaf("e", default="E"), leaf("f"), default="e"))],
}


def strip(v):
    """Without metadata."""
    if isinstance(v, dict):
        return {k: strip(a) for k, a in v.items() if k[0] != "@"}
    return [strip(a) for a in v] if isinstance(v, list) else v


def prune(v, ins):
    """Drop implicit containers without content: they mean the same as nothing."""
    if isinstance(v, dict):
        ins = ins if isinstance(ins, dict) else {}
        r = {k: prune(a, ins.get(k)) for k, a in v.items()}
        return {k: a for k, a in r.items() if a != {} or k in ins}
    if isinstance(v, list):
        ins = ins if isinstance(ins, list) and len(ins) == len(v) else [None] * len(v)
        return [prune(a, i) for a, i in zip(v, ins)]
    return v


def norm(v):
    """Object members have no order."""
    if isinstance(v, dict):
        return ("obj",) + tuple(sorted(((k, norm(a)) for k, a in v.items()), key=lambda t: t[0]))
    return tuple(map(norm, v)) if isinstance(v, (list, tuple)) else v


def show_(v):
    return str(v).replace("'", "")[:160]


def at(v, path):
    for k in path:
        v = v[k]
    return v


def marked(v, path):
    """Is the member at `path` marked as a default?"""
    o = at(v, path[:-1])
    m = o.get("@" + path[-1]) if isinstance(o, dict) else None
    w = o[path[-1]]
    if m is None and isinstance(w, dict):
        m = w.get("@")
    ms = m if isinstance(m, list) else [m]
    return any(isinstance(a, dict) and a.get("ietf-netconf-with-defaults:default") for a in ms)


def members(v, path=()):
    if isinstance(v, dict):
        for k, a in v.items():
            if k[0] != "@":
                if not isinstance(a, list) or not any(isinstance(e, dict) for e in a):
                    yield path + (k,)
                yield from members(a, path + (k,))
    elif isinstance(v, list):
        for i, a in enumerate(v):
            yield from members(a, path + (i,))


def check_schema(ck, name, nodes):
    w = world(ck, "c17-" + name, lambda p: World(p, [statements(nodes)]))
    insts = list(variants(nodes))
    if ck.tier == "quick" and len(insts) > 24:
        insts = insts[:12] + insts[12::max(1, len(insts) // 12)]
    for ins in insts:
        for ct, cn in ((ALL, None), (ALL, "all"), (CONFIG, "config"), (STATE, "nonconfig")):
            if ck.tier == "quick" and cn == "all" and not name.startswith("state"):
                continue

            def t(x, ins=ins, ct=ct, cn=cn):
                v = build(x.sc, ins)
                root = x.sc.root(v)
                given = plain(x, v)
                added = set()
                try:
                    want = with_defaults(nodes, given, ct, truth(x), added=added)
                except InvalidInstance:
                    return
                cons = "InternalNode._add_defaults" if "choice" not in name and "case" not in name else "ChoiceNode._add_defaults"
                what = f"{desc(ins)} with {cn or 'its own'} defaults of schema {name}"
                args = [NONE if cn is None else enum(x, "ContentType", cn)]
                for tag in (False, True):
                    r = [None]

                    def go():
                        r[0] = x.call(root, "add_defaults", *args, K(tag)) if tag else x.call(root, "add_defaults", *args)
                        return NONE
                    a = x.attempt(go)
                    x.expect(a[0] == "ok", "completes", cons, f"{what}: {a[1]} raised", getattr(x, "last", None) and x.last.loc)
                    if a[0] != "ok":
                        return
                    full = plain(x, x.attr(r[0], "value"))
                    got = prune(strip(full), given)
                    x.expect(norm(got) == norm(want), "completion", cons, f"{what}: {show_(got)} instead of {show_(want)}")
                    if norm(got) != norm(want):
                        return
                    if tag:
                        for m in members(full):
                            if any(m[:i] in added for i in range(1, len(m))):
                                continue
                            try:
                                at(got, m)
                            except KeyError:
                                continue        # implicit empty container
                            x.expect(marked(full, m) == (m in added), "marking", "InstanceNode._mark_defaults",
                                     f"{what}: {'/'.join(map(str, m))} is {'not ' if m in added else ''}marked as a default")
                again = x.call(x.call(root, "add_defaults", *args), "add_defaults", *args)
                got = prune(strip(plain(x, x.attr(again, "value"))), given)
                x.expect(norm(got) == norm(want), "idempotent", cons, f"{what}: completing twice gives {show_(got)}")
            ck.scenario(f"{name}/{desc(ins)}/{cn}", t, w)


def receivers(ck):
    """Whatever node the completion starts from, only its own subtree changes."""
    nodes = [cont("c", leaf("a", default="A"), cont("d", leaf("x", default="X"), leaf("y")), lst("l", leaf("k"), leaf("v", default="V"), cont("n", leaf("z", default="Z")), keys=("k",)),
                  leaflist("ll", default=["p"]), cont("s", leaf("q", default="Q"), config=False)), leaf("t", default="T")]
    w = world(ck, "c17-recv", lambda p: World(p, [statements(nodes)]))
    ins = {"m:c": {"d": {"y": "v"}, "l": [{"k": "v"}, {"k": "v", "v": "v"}], "ll": ["a"], "s": {}}}
    done = {(): {"m:c": {"a": "A", "d": {"x": "X"}, "l": [{"v": "V", "n": {"z": "Z"}}, {"n": {"z": "Z"}}], "s": {"q": "Q"}}, "m:t": "T"}}

    def walk(p, n):
        for k, a in (n.items() if isinstance(n, dict) else enumerate(n)):
            q = p + (k,)
            if k == "y" or p and p[-1] == "ll" or k == "k":
                yield q
                continue
            yield q
            if isinstance(a, (dict, list)):
                yield from walk(q, a)
    sub = {c.name: c for c in nodes[0].children}
    for path in [()] + list(walk((), ins)):
        def t(x, path=path):
            v = build(x.sc, ins)
            root = x.sc.root(v)
            given = plain(x, v)
            full = with_defaults(nodes, given, ALL, lambda n, p: True)
            inst = x.sc.member(root, *path)
            r = x.call(inst, "add_defaults")
            got = plain(x, x.attr(r, "value"))
            want = at(full, path)
            where = "/".join(map(str, path)) or "root"
            x.expect(norm(prune(got, at(given, path))) == norm(want), "completion", "InstanceNode.add_defaults", f"at {where}: {show_(got)} instead of {show_(want)}")
            top = plain(x, x.attr(x.call(r, "top"), "value"))

            def put(v, p):
                if not p:
                    return want
                if isinstance(v, dict):
                    return {k: put(a, p[1:]) if k == p[0] else a for k, a in v.items()}
                return [put(a, p[1:]) if i == p[0] else a for i, a in enumerate(v)]
            exp = put(given, path)
            x.expect(norm(prune(top, given)) == norm(exp), "frame", "InstanceNode.add_defaults", f"completing {where} turns the whole tree into {show_(top)}")
            x.expect(norm(plain(x, x.attr(root, "value"))) == norm(given), "frame", "InstanceNode.add_defaults", f"completing {where} changes the original tree")
        ck.scenario(f"receiver/{'/'.join(map(str, path))}", t, w)


def typed(name, t, *subs):
    return S("leaf", name, t, *subs)


def T_(n, *s): return S("type", n, *s)


def values(ck):
    """The value added is the default in force, as a value of the node's type."""
    D_ = lambda v: S("default", v)
    en = T_("enumeration", S("enum", "zero"), S("enum", "one"))
    m = module(
        "m",
        S("identity", "b"), S("identity", "d1", S("base", "b")),
        S("typedef", "td", T_("string"), D_("of-type")), S("typedef", "td2", T_("td")), S("typedef", "td3", T_("td"), D_("of-derived")),
        S("typedef", "ts", T_("string"), D_("")), S("typedef", "tu", T_("uint8"), D_("0")), S("typedef", "tid", T_("identityref", S("base", "b")), D_("d1")), S("typedef", "tb", T_("boolean"), D_("false")),
        S("typedef", "te", en, D_("one")), S("typedef", "tun", T_("union", T_("uint8"), T_("string")), D_("7")),
        S("grouping", "g", typed("g1", T_("string"), D_("plain")), typed("g2", T_("td"))),
        S("container", "c",
          typed("empty", T_("string"), D_("")), typed("zero", T_("uint8"), D_("0")), typed("no", T_("boolean"), D_("false")), typed("yes", T_("boolean"), D_("true")),
          typed("neg", T_("int32"), D_("-5")), typed("hex", T_("int32"), D_("0x1f")), typed("en", en, D_("one")), typed("bits", T_("bits", S("bit", "x"), S("bit", "y")), D_("y")),
          typed("nobits", T_("bits", S("bit", "x"), S("bit", "y")), D_("")), typed("id", T_("identityref", S("base", "b")), D_("d1")), typed("idp", T_("identityref", S("base", "b")), D_("m:d1")),
          typed("u", T_("union", T_("uint8"), T_("string")), D_("5")), typed("us", T_("union", T_("uint8"), T_("string")), D_("five")),
          typed("t1", T_("td")), typed("t2", T_("td2")), typed("t3", T_("td3")), typed("t4", T_("td"), D_("own")), typed("t5", T_("td3"), D_("")),
          typed("tm", T_("td"), S("mandatory", "true")), typed("tz", T_("tu")), typed("tzo", T_("tu"), D_("9")), typed("tid", T_("tid")), typed("tb", T_("tb")), typed("te", T_("te")), typed("tun", T_("tun")),
          typed("ref", T_("leafref", S("path", "../zero")), D_("3")), typed("refs", T_("leafref", S("path", "../empty")), D_("x")),
          typed("refid", T_("leafref", S("path", "../id")), D_("d1")),
          S("leaf-list", "l1", T_("td")), S("leaf-list", "l2", T_("string"), D_("b"), D_("a")), S("leaf-list", "l3", T_("td"), D_("own")), S("leaf-list", "l4", T_("td"), S("min-elements", "1")),
          S("leaf-list", "l5", T_("uint8"), D_("0"), D_("2")), S("leaf-list", "l6", T_("tu")), S("leaf-list", "l7", T_("tb")), S("leaf-list", "l8", T_("ts")), typed("ts", T_("ts")),
          S("uses", "g", S("refine", "g1", D_("refined")), S("refine", "g2", D_("refined too"))),
          S("container", "again", S("uses", "g")),
          S("list", "kl", S("key", "k"), typed("k", T_("td")), typed("v", T_("td")))),
        S("rpc", "op", S("input", None, typed("i1", T_("string"), D_("I")), S("container", "ic", typed("i2", T_("td")))), S("output", None, typed("o1", T_("string"), D_("O")))),
        S("notification", "nt", typed("n1", T_("string"), D_("N")), S("container", "nc", typed("n2", T_("td")))))
    want = {"empty": "", "zero": 0, "no": False, "yes": True, "neg": -5, "hex": 31, "en": "one", "bits": ("y",), "nobits": (), "id": ("d1", "m"), "idp": ("d1", "m"), "u": 5, "us": "five",
            "t1": "of-type", "t2": "of-type", "t3": "of-derived", "t4": "own", "t5": "", "tz": 0, "tzo": 9, "tid": ("d1", "m"), "tb": False, "te": "one", "tun": 7, "ref": 3, "refs": "x", "refid": ("d1", "m"),
            "l1": ["of-type"], "l2": ["b", "a"], "l3": ["own"], "l5": [0, 2], "l6": [0], "l7": [False], "l8": [""], "ts": "", "g1": "refined", "g2": "refined too", "again": {"g1": "plain", "g2": "of-type"}}
    w = world(ck, "c17-values", lambda p: World(p, [m]))

    def t(x):
        r = x.call(x.sc.root(x.sc.objd({})), "add_defaults")
        got = plain(x, x.attr(r, "value")).get("m:c", {})
        for k in sorted(set(want) | set(got)):
            g, e = got.get(k), want.get(k)
            x.expect(norm(g) == norm(e) and type(g) == type(e), "default-in-force", "LeafListNode.default" if k[0] == "l" else "LeafNode.default", f"the default of {k} is {g!r} instead of {e!r}")
        r = x.call(x.sc.root(x.sc.objd({"m:c": x.sc.objd({"kl": x.sc.arr(x.sc.objd({"k": K("1")}))})})), "add_defaults")
        got = plain(x, x.attr(r, "value"))["m:c"]
        x.expect(got["kl"] == [{"k": "1", "v": "of-type"}], "default-in-force", "LeafNode.default", f"list entry completed to {got['kl']!r}")
    ck.scenario("values", t, w)

    MSG = [("m:op", {}, {}), ("m:op", {"m:input": {}}, {"m:input": {"i1": "I", "ic": {"i2": "of-type"}}}), ("m:op", {"m:output": {}}, {"m:output": {"o1": "O"}}),
           ("m:op", {"m:input": {"i1": "x", "ic": {}}}, {"m:input": {"i1": "x", "ic": {"i2": "of-type"}}}), ("m:op", {"m:output": {"o1": "x"}}, {"m:output": {"o1": "x"}}),
           ("m:nt", {}, {"m:n1": "N", "m:nc": {"n2": "of-type"}}), ("m:nt", {"m:n1": "x"}, {"m:n1": "x", "m:nc": {"n2": "of-type"}})]
    for sub, raw, exp in MSG:
        def t(x, sub=sub, raw=raw, exp=exp):
            for cn in (None, "all"):
                root = x.call(x.sc.dm, "from_raw", L(raw), K(sub))
                r = [None]

                def go():
                    r[0] = x.call(root, "add_defaults", NONE if cn is None else enum(x, "ContentType", cn))
                    return NONE
                a = x.attempt(go)
                x.expect(a[0] == "ok", "completes", "InputNode/OutputNode", f"message {raw} of {sub}: {a[1]} raised", getattr(x, "last", None) and x.last.loc)
                if a[0] == "ok":
                    got = plain(x, x.attr(r[0], "value"))
                    x.expect(norm(prune(got, raw)) == norm(exp), "completion", "SchemaTreeNode", f"message {raw} of {sub} is completed to {got} instead of {exp}")
        ck.scenario(f"message/{sub}/{desc(raw)}", t, w)


def status(ck):
    """Obsolete definitions get no default: validation rejects their members."""
    for st in ("current", "deprecated", "obsolete"):
        s = S("status", st)
        m = module("m", S("container", "c", sleaf("a", "string", S("default", "A"), s), sleaf("b", "string", S("default", "B")), S("container", "d", s, sleaf("x", "string", S("default", "X"))),
                          S("leaf-list", "l", S("type", "string"), S("default", "p"), s), S("choice", "ch", S("default", "z"), s, sleaf("z", "string", S("default", "Z")))))
        w = world(ck, "c17-status-" + st, lambda p, m=m: World(p, [m]))

        def t(x, st=st):
            r = x.call(x.sc.root(x.sc.objd({})), "add_defaults")
            got = plain(x, x.attr(r, "value"))
            want = {"m:c": {"b": "B"}} if st == "obsolete" else {"m:c": {"a": "A", "b": "B", "d": {"x": "X"}, "l": ["p"], "z": "Z"}}
            x.expect(norm(prune(got, {})) == norm(want), "completion", "InternalNode._add_defaults", f"{st} nodes: {got} instead of {want}")
        ck.scenario("status/" + st, t, w)


def run(ck):
    ck.floor = 900
    for name, nodes in SCHEMAS.items():
        check_schema(ck, name, nodes)
    receivers(ck)
    values(ck)
    status(ck)
