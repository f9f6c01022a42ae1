"""C15: XPath axes select the right nodes in the right order.

Every axis, with every kind of node test, is interpreted from every node of
an abstract tree and compared with the axis definition over a reference tree.
Sibling axes are defined on entries of one list or leaf-list (the order of
object members carries no meaning)."""
from .common import *
from .xp import parse
from ..world import S, leaf as sleaf, module
CFG = dict(steps=10**8, rec=300, depth=500)

AXES = ("child", "descendant", "descendant-or-self", "parent", "ancestor", "ancestor-or-self", "following-sibling", "preceding-sibling", "self")
REVERSE = ("ancestor", "ancestor-or-self", "preceding-sibling")


def xworld(ck):
    m = module("m",
        S("container", "c", sleaf("a"), sleaf("b"),
          S("list", "l", S("key", "k"), sleaf("k"), sleaf("v"), S("leaf-list", "y", S("type", "string")),
            S("container", "in", S("presence", "x"), sleaf("a"), S("list", "l", S("key", "k"), sleaf("k")))),
          S("leaf-list", "ll", S("type", "string")), S("container", "in", sleaf("a"))),
        S("list", "tl", S("key", "k"), sleaf("k")), S("leaf-list", "tll", S("type", "uint8")), sleaf("t"))
    return world(ck, "c15", lambda p: World(p, [m, nmodule()]))


def nmodule():
    return module("n", S("import", "m", S("prefix", "m")), S("augment", "/m:c", sleaf("a"), S("container", "in", sleaf("a"))))


def sctx(x, mod="n"):
    """Expressions are read in module n: prefixes m and n, no prefix means m."""
    mid = Lst("tuple", [K(mod), K("2020-01-01")])
    return x.I.instantiate(x.p.cls("SchemaContext"), [x.attr(x.sc.dm, "schema_data"), K("m"), mid], {})


DATA = {"m:c": {"a": "1", "b": "2",
                "l": [{"k": "p", "v": "1", "y": ["r", "s"], "in": {"a": "x", "l": [{"k": "i"}, {"k": "j"}]}}, {"k": "q", "y": ["r"]}, {"k": "r", "v": "1"}],
                "ll": ["u", "v", "w"], "in": {"a": "1"}, "n:a": "1", "n:in": {"a": "z"}},
        "m:tl": [{"k": "1"}, {"k": "2"}], "m:tll": [7, 8, 9], "m:t": "1"}


class T:
    """Reference tree node: qualified name, path, parent, children."""
    def __init__(self, qn, path, parent, arr=None):
        self.qn, self.path, self.parent, self.arr, self.kids = qn, path, parent, arr, []

    def desc(self):
        for k in self.kids:
            yield k
            yield from k.desc()


def build(data):
    root = T(None, (), None)

    def fill(t, obj, ns):
        for nm, v in obj.items():
            mod = nm.partition(":")[0] if ":" in nm else ns
            qn = (nm.partition(":")[2] or nm, mod)
            path = t.path + (nm,)
            if isinstance(v, list):
                arr = []
                for i, e in enumerate(v):
                    k = T(qn, path + (i,), t, arr)
                    arr.append(k)
                    t.kids.append(k)
                    if isinstance(e, dict):
                        fill(k, e, mod)
            else:
                k = T(qn, path, t)
                t.kids.append(k)
                if isinstance(v, dict):
                    fill(k, v, mod)
    fill(root, data, None)
    return root


def axis(t, ax):
    """Nodes on an axis, in proximity order."""
    up = []
    p = t.parent
    while p is not None:
        up.append(p)
        p = p.parent
    i = t.arr.index(t) if t.arr else None
    return {"child": lambda: list(t.kids), "descendant": lambda: list(t.desc()), "descendant-or-self": lambda: [t, *t.desc()],
            "parent": lambda: up[:1], "ancestor": lambda: up, "ancestor-or-self": lambda: [t, *up], "self": lambda: [t],
            "following-sibling": lambda: t.arr[i + 1:] if t.arr else [], "preceding-sibling": lambda: t.arr[:i][::-1] if t.arr else []}[ax]()


TESTS = {"node()": lambda n: True, "*": lambda n: n.qn is not None}
for _q in (("a", "m"), ("a", "n"), ("l", "m"), ("k", "m"), ("in", "m"), ("in", "n"), ("c", "m"), ("tl", "m"), ("y", "m"), ("tll", "m"), ("zz", "m")):
    TESTS[f"{_q[1]}:{_q[0]}"] = lambda n, q=_q: n.qn == q
TESTS["a"] = TESTS["m:a"]


def inst(x, t, rootnode):
    n = rootnode
    for k in t.path:
        n = x.sc.member(n, k)
    return n


def paths(x, expr, node, ctx):
    """Paths of the selected nodes | ("raise", class)"""
    def go():
        e, end = parse(x, expr, ctx)
        if not end:
            raise Unsupported(f"{expr} not consumed")
        return x.call(e, "evaluate", node)
    r = x.attempt(go)
    if r[0] == "raise":
        return r
    return [tuple(plain_key(k) for k in seq(x.I, x.attr(n, "path"))) for n in seq(x.I, r[1])]


def plain_key(k):
    return k.val if isinstance(k, K) else repr(k)


def lin(x, data):
    from .xp import cook
    return x.sc.root(cook(x, data))


def documented_order(got, nodes):
    """Relative order that carries meaning: entries of one list, ancestors first."""
    for i, a in enumerate(got):
        for b in got[i + 1:]:
            if len(b) < len(a) and a[:len(b)] == b:
                return False
            d = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), None)
            if d is not None and isinstance(a[d], int) and isinstance(b[d], int) and a[d] > b[d]:
                return False
    return True


LOC = {"child": "InstanceNode._children", "descendant": "InstanceNode._descendants", "descendant-or-self": "InstanceNode._descendants", "parent": "InstanceNode._parent",
       "ancestor": "InstanceNode._ancestors", "ancestor-or-self": "InstanceNode._ancestors_or_self", "following-sibling": "ArrayEntry._following_siblings",
       "preceding-sibling": "ArrayEntry._preceding_siblings", "self": "Step._node_trans"}


def judge(x, ax, text, where, got, exp, ordered):
    c = LOC[ax]
    if isinstance(got, tuple):
        x.expect(False, "axis-fails", c, f"{text} from {where} raises {got[1]}", x.last.loc)
        return
    x.expect(len(set(got)) == len(got), "axis-duplicates", c, f"{text} from {where} selects a node twice: {got}")
    x.expect(set(got) == {n.path for n in exp}, "axis-nodes", c, f"{text} from {where} selects {sorted(set(got), key=str)} instead of {sorted((n.path for n in exp), key=str)}")
    if ordered:
        x.expect(documented_order(got, exp), "axis-order", c, f"{text} from {where} gives {got}, not in document order")


def run(ck):
    w = xworld(ck)
    tree = build(DATA)
    nodes = [tree, *tree.desc()]
    for part in range(len(nodes)):
        def t(x, part=part):
            r, ctx = lin(x, DATA), sctx(x)
            for i, nd in enumerate(nodes):
                if i != part:
                    continue
                node = inst(x, nd, r)
                where = "/" + "/".join(map(str, nd.path))
                for ax in AXES:
                    near = axis(nd, ax)
                    for tst, f in TESTS.items():
                        if ax == "descendant-or-self" and tst == "*" and nd is tree:
                            continue        # the existing tests fix that the root is selected here
                        exp = [n for n in near if f(n)]
                        text = f"{ax}::{tst}"
                        got = paths(x, text, node, ctx)
                        judge(x, ax, text, where, got, exp, True)
                    for tst in ("node()", "*", "m:l", "m:y"):
                        if ax == "descendant-or-self" and tst == "*" and nd is tree:
                            continue
                        exp = [n for n in near if TESTS[tst](n)]
                        if len(exp) > 6 and ax != "child":
                            continue
                        one = [paths(x, f"{ax}::{tst}[{k}]", node, ctx) for k in range(1, len(exp) + 2)]
                        last = paths(x, f"{ax}::{tst}[last()]", node, ctx)
                        x.expect(all(isinstance(o, list) for o in one) and [len(o) for o in one] == [1] * len(exp) + [0], "axis-position", LOC[ax],
                                 f"{ax}::{tst}[k] from {where} gives {one}")
                        if all(isinstance(o, list) for o in one):
                            flat = [o[0] for o in one if o]
                            x.expect(set(flat) == {n.path for n in exp}, "axis-position", LOC[ax], f"{ax}::{tst}[k] from {where} gives {flat}")
                            if ax in REVERSE:
                                x.expect(flat == [n.path for n in exp], "axis-position", LOC[ax], f"positions on {ax}::{tst} from {where} are {flat}, expected {[n.path for n in exp]}")
                            else:
                                x.expect(documented_order(flat, exp), "axis-position", LOC[ax], f"positions on {ax}::{tst} from {where} are {flat}, not in document order")
                            x.expect(last == flat[-1:], "axis-position", LOC[ax], f"{ax}::{tst}[last()] from {where} gives {last}, [k] gives {flat}")
        ck.scenario(f"axes/{part}", t, w, Config(**CFG))

    def compose(a, b, cur, f=lambda n: True, g=lambda n: True):
        return {m.path: m for n in axis(cur, a) if f(n) for m in axis(n, b) if g(m)}
    starts = [n for n in nodes if n.path in ((), ("m:c",), ("m:c", "l", 1), ("m:c", "l", 0, "in"), ("m:c", "ll", 1), ("m:tll", 0))]
    for ai, a in enumerate(AXES):
        def t(x, a=a):
            r, ctx = lin(x, DATA), sctx(x)
            for nd in starts:
                node = inst(x, nd, r)
                for b in AXES:
                    for t1, t2 in (("node()", "node()"), ("*", "m:k"), ("m:l", "node()")):
                        if nd is tree and a == "descendant-or-self" and t1 == "*":
                            continue
                        text = f"{a}::{t1}/{b}::{t2}"
                        got = paths(x, text, node, ctx)
                        exp = compose(a, b, nd, TESTS[t1], TESTS[t2])
                        ok = isinstance(got, list) and len(got) == len(set(got)) and set(got) == set(exp)
                        x.expect(ok, "path-composition", "LocationPath._eval", f"{text} from {nd.path} selects {got} instead of {sorted(exp, key=str)}", x.last.loc if isinstance(got, tuple) else None)
        ck.scenario(f"composed/{a}", t, w, Config(**CFG))

    def abbrev(x):
        r, ctx = lin(x, DATA), sctx(x)
        find = {n.path: n for n in nodes}

        def sel(f):
            return {n.path for n in nodes if f(n)}
        for nd in starts:
            node = inst(x, nd, r)
            inside = {n.path for n in nd.desc()}
            cases = {".": {nd.path}, "..": {nd.parent.path} if nd.parent else set(), "/": {()},
                     "//m:k": sel(lambda n: n.qn == ("k", "m")), "//*": sel(lambda n: n.qn), "/m:c/m:l": sel(lambda n: n.qn == ("l", "m") and len(n.path) == 3),
                     ".//m:k": {p for p in inside if find[p].qn == ("k", "m")}, "*": {n.path for n in nd.kids}, "node()": {n.path for n in nd.kids},
                     "*/..": {nd.path} if nd.kids else set(), "../..": {nd.parent.parent.path} if nd.parent and nd.parent.parent else set(),
                     "//m:l[2]": sel(lambda n: n.qn == ("l", "m") and n.path[-1] == 1), "(//m:l)[1]": {("m:c", "l", 0)}, "//m:l[last()]/m:k": {("m:c", "l", 2, "k"), ("m:c", "l", 0, "in", "l", 1, "k")},
                     "/m:c/m:l[m:k = 'q']/preceding-sibling::m:l[1]": {("m:c", "l", 0)}, "/m:c/m:l[3]/preceding-sibling::m:l[1]": {("m:c", "l", 1)},
                     "(/m:c/m:l[3]/preceding-sibling::m:l)[1]": {("m:c", "l", 0)}, "/m:c/m:l[m:v = '1'][2]": {("m:c", "l", 2)}, "/m:c/m:l[2][m:v = '1']": set(),
                     "/m:c/m:l[m:in]/m:in/m:l[position() = last()]": {("m:c", "l", 0, "in", "l", 1)}, "current()": {nd.path}, "/m:c/m:ll[. = current()]": {nd.path} if nd.path == ("m:c", "ll", 1) else set(),
                     "//m:y/../m:k": {("m:c", "l", 0, "k"), ("m:c", "l", 1, "k")}, "//m:y[. = 's']/ancestor::*[1]": {("m:c", "l", 0)}, "/m:c/n:in/m:a": set(), "/m:c/n:in/n:a": {("m:c", "n:in", "a")},
                     "//m:k | //m:k": sel(lambda n: n.qn == ("k", "m")), "//m:y/.. | /m:c/m:l": sel(lambda n: n.qn == ("l", "m") and len(n.path) == 3)}
            for text, exp in cases.items():
                got = paths(x, text, node, ctx)
                ok = isinstance(got, list) and len(got) == len(set(got)) and set(got) == exp
                x.expect(ok, "path-composition", "LocationPath._eval", f"{text} from {nd.path} selects {got} instead of {sorted(exp, key=str)}", x.last.loc if isinstance(got, tuple) else None)
    ck.scenario("abbreviated", abbrev, w, Config(**CFG))

    def unsupported(x):
        ctx = sctx(x)
        for ax in ("attribute", "following", "preceding", "namespace"):
            got = x.attempt(lambda: parse(x, f"{ax}::a", ctx))
            x.expect(got == ("raise", "NotSupported"), "axis-unsupported", "XPathParser._axis_qname", f"{ax}:: gives {got!r} instead of NotSupported")
        for ax in ("foo", "childs", "descendant_or_self", "Child"):
            got = x.attempt(lambda: parse(x, f"{ax}::a", ctx))
            x.expect(got == ("raise", "InvalidXPath"), "axis-unsupported", "XPathParser._axis_qname", f"{ax}:: gives {got!r} instead of InvalidXPath")
    ck.scenario("unsupported", unsupported, w, Config(**CFG))

    def orphans(x):
        ctx = sctx(x)
        c = x.call(x.sc.dm, "get_data_node", K("/m:c"))
        o = x.call(c, "orphan_instance", raw(x, DATA["m:c"]))
        e = x.sc.member(o, "ll", 1)
        top = x.call(x.call(x.sc.dm, "get_data_node", K("/m:tll")), "orphan_instance", raw(x, [7, 8, 9]))
        te = x.sc.member(top, 1)
        for nd, name, exp in ((o, "c", {"..": 0, "ancestor::node()": 0, "ancestor-or-self::node()": 1, "parent::node()": 0, "self::m:c": 1, "m:a": 1, "following-sibling::node()": 0}),
                              (e, "ll[1]", {"..": 1, "ancestor::node()": 1, "ancestor-or-self::node()": 2, "preceding-sibling::node()": 1, "../m:a": 1}),
                              (te, "tll[1]", {"..": 0, "ancestor::node()": 0, "ancestor-or-self::node()": 1, "following-sibling::node()": 1})):
            for text, num in exp.items():
                got = paths(x, text, nd, ctx)
                x.expect(isinstance(got, list) and len(got) == num, "orphan-axes", LOC["ancestor" if "anc" in text else "parent"], f"{text} from orphan {name} selects {got}, expected {num} nodes", x.last.loc if isinstance(got, tuple) else None)
    ck.scenario("orphans", orphans, w, Config(**CFG))

    dw = world(ck, "c15d", lambda p: World(p, [dmodule()]))

    def defaults(x):
        ctx = sctx(x, "m")
        for data, exp in DEFAULTS:
            r = lin(x, {"m:d": data})
            d = x.sc.member(r, "m:d")
            for text, names in (("*", exp), ("child::node()", exp)):
                got = paths(x, text, d, ctx)
                names = {("m:d", n) for n in names}
                x.expect(isinstance(got, list) and set(got) == names and len(got) == len(names), "default-children", "InstanceNode._children", f"{text} with {data} selects {got} instead of {sorted(names)}")
            for nm in ("x", "a1", "a2", "b1", "b2", "b3", "n1", "n2", "np", "pr"):
                got = paths(x, f"m:{nm}", d, ctx)
                want = [("m:d", nm)] if nm in exp else []
                x.expect(got == want, "default-children", "InstanceNode._children", f"m:{nm} with {data} selects {got} instead of {want}", x.last.loc if isinstance(got, tuple) else None)
    ck.scenario("defaults", defaults, dw, Config(**CFG))
    ck.floor = 9000


def dmodule():
    d = lambda n: sleaf(n, "string", S("default", "dflt"))
    return module("m", S("container", "d", d("x"),
        S("choice", "ch", S("default", "ca"),
          S("case", "ca", d("a1"), sleaf("a2")),
          S("case", "cb", sleaf("b1"), d("b2"), S("choice", "in", S("default", "n1"), d("n1"), d("n2"))),
          S("container", "b3", d("z"))),
        S("container", "np", d("z")), S("container", "pr", S("presence", "yes"), d("z"))))


DEFAULTS = [({}, {"x", "a1", "np"}), ({"a2": "1"}, {"x", "a1", "a2", "np"}), ({"b1": "1"}, {"x", "b1", "b2", "n1", "np"}), ({"n2": "1"}, {"x", "b2", "n2", "np"}),
            ({"b3": {}}, {"x", "b3", "np"}), ({"pr": {}, "x": "1"}, {"x", "a1", "np", "pr"}), ({"a1": "1", "np": {}}, {"x", "a1", "np"})]


def raw(x, d):
    from .c11 import L
    return L(d)
