"""C44: schema nodes are found by the paths that address them, and only by those.

The tree given by the public attributes `children`, `name` and `ns` is the reference; every
addressing method is compared with its definition in docs/schemanode.rst and docs/datamodel.rst."""
from .common import *
from .c11 import L
from .schema import children, ident, is_node
from .c34 import widened
from ..world import S, leaf as sleaf, module

DATA = ("ContainerNode", "ListNode", "LeafNode", "LeafListNode", "AnydataNode", "AnyxmlNode")
CTYPES = {"config": 1, "nonconfig": 2, "all": 3}


def modules():
    m = module("m",
        S("container", "c",
          sleaf("a"),
          S("choice", "a1", S("default", "b1"), S("case", "b1", S("container", "b1x", sleaf("a")), sleaf("q")), sleaf("sh"),
            S("choice", "in", S("case", "a1", S("list", "a1", S("key", "k"), sleaf("k"), S("container", "c", sleaf("c")))))),
          S("choice", "st", S("config", "false"), S("container", "st1", sleaf("z")), S("leaf-list", "st2", S("type", "string"))),
          S("uses", "g", S("when", "a = 'x'")),
          S("uses", "h"),
          S("container", "s", S("config", "false"), sleaf("a"), S("list", "nk", sleaf("v"), S("container", "deep", sleaf("a")))),
          S("action", "a2", S("input", sleaf("a"), S("choice", "x", sleaf("y"))), S("output", sleaf("a"))),
          S("notification", "n2", sleaf("a"), S("choice", "x", S("case", "y", S("container", "y", sleaf("y")))))),
        S("grouping", "g", S("container", "gc", sleaf("a"), sleaf("gs", "string", S("config", "false"))), sleaf("gl")),
        S("grouping", "h", S("choice", "hc", S("case", "hd", sleaf("hl"))), S("anydata", "had")),
        S("leaf-list", "tl", S("type", "uint8")),
        S("anyxml", "tx", S("config", "false")),
        S("choice", "top", S("case", "top", S("list", "top", S("key", "a b"), sleaf("a"), sleaf("b"), S("leaf-list", "w", S("config", "false"), S("type", "string"))))),
        S("rpc", "op", S("input", sleaf("a"), S("container", "b", sleaf("a"))), S("output", sleaf("a"))),
        S("rpc", "nop"),
        S("notification", "nt", sleaf("a"), S("list", "l", sleaf("a"))))
    o = module("o",
        S("import", "m", S("prefix", "mm")),
        S("augment", "/mm:c", sleaf("a"), S("container", "c", sleaf("a"), S("choice", "ca", S("case", "d", sleaf("e"))))),
        S("augment", "/mm:c", S("when", "mm:a = 'x'"), sleaf("w"), S("choice", "wc", S("case", "wd", sleaf("we"))), S("container", "ws", S("config", "false"), sleaf("a"))),
        S("augment", "/mm:c/mm:a1", S("case", "b1", sleaf("b1"), S("container", "b2", sleaf("a")))),
        S("augment", "/mm:c/mm:a1/mm:b1", sleaf("aq")),
        S("augment", "/mm:c/mm:a2/mm:input", sleaf("a")),
        S("augment", "/mm:nt", sleaf("a")),
        S("container", "c", sleaf("a")))
    return [m, o]


class Tree:
    """The reference: plain Python over the identities of the abstract schema nodes."""

    def __init__(self, x, root):
        self.x, self.root, self.nodes, self.up = x, root, [], {}
        todo = [root]
        while todo:
            n = todo.pop(0)
            self.nodes.append(n)
            for c in children(x, n):
                self.up[c] = n
                todo.append(c)
        self.id = {n: ident(x, n) for n in self.nodes}
        self.isdata = {n: any(getattr(c, "name", None) == "DataNode" for c in n.cls.mro) for n in self.nodes}
        self.istree = {n: any(getattr(c, "name", None) == "SchemaTreeNode" for c in n.cls.mro) for n in self.nodes}

    def qn(self, n):
        return self.id[n][2], self.id[n][1]

    def chain(self, n):
        """The node and its ancestors, from the root."""
        r = [n]
        while r[-1] in self.up:
            r.append(self.up[r[-1]])
        return r[::-1]

    def named(self, n):
        return self.id[n][2] is not None

    def kids(self, n):
        """Children by name: groups are transparent."""
        r = []
        for c in children(self.x, n):
            r += [c] if self.named(c) else self.kids(c)
        return r

    def child(self, n, name, ns):
        r = [c for c in self.kids(n) if self.qn(c) == (name, ns)]
        return r[0] if r else None

    def data(self, n):
        r = []
        for c in children(self.x, n):
            if self.isdata[c]:
                r.append(c)
            elif not self.istree[c]:
                r += self.data(c)
        return r

    def datachild(self, n, name, ns):
        r = [c for c in self.data(n) if self.qn(c) == (name, ns)]
        return r[0] if r else None

    def dparent(self, n):
        for a in reversed(self.chain(n)[:-1]):
            if self.isdata[a]:
                return a
        return None

    def iname(self, n):
        p = self.dparent(n)
        nm, ns = self.qn(n)
        return nm if p is not None and self.qn(p)[1] == ns else f"{ns}:{nm}"

    def dpath(self, n):
        p = self.dparent(n)
        return (self.dpath(p) if p is not None else "") + "/" + self.iname(n)

    def spath(self, n, top=None):
        s, ns = "", None
        for a in self.chain(n)[1:]:
            if self.named(a):
                nm, m = self.qn(a)
                s += "/" + (nm if m == ns else f"{m}:{nm}")
                ns = m
        return s or "/"

    def route(self, n, top):
        ch = self.chain(n)
        return [self.qn(a) for a in ch[ch.index(top) + 1:] if self.named(a)]

    def inop(self, n):
        return any(self.istree[a] for a in self.chain(n)[1:])

    def ctype(self, n):
        return self.x.I.force(self.x.attr(self.x.I.force(self.x.call(n, "content_type")), "value")).val

    def states(self, n):
        if self.isdata[n] and self.ctype(n) == CTYPES["nonconfig"]:
            return [n]
        r = []
        for c in self.data(n) if "children" in n.fields else []:
            r += self.states(c)
        return r


def where(t, n):
    return t.spath(n) if t.named(n) else t.spath(n) + " (anonymous)"


def check(x, t, part):
    dm = x.sc.dm
    none = lambda v: isinstance(v, K) and v.val is None
    names = sorted({t.qn(n) for n in t.nodes if t.named(n)}) + [("nil", "m"), ("nil", "zz"), ("a", "zz")]

    def got(f):
        r = x.attempt(f)
        if r[0] != "ok":
            return "raises " + r[1]
        v = x.I.force(r[1])
        return None if none(v) else v if is_node(v) else [x.I.force(i) for i in seq(x.I, v)] if isinstance(v, Lst) else v.val if isinstance(v, K) else v

    def say(v):
        return where(t, v) if is_node(v) and v in t.id else [say(i) for i in v] if isinstance(v, list) else repr(v)

    def same_(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(same_(i, j) for i, j in zip(a, b))
        return a is b if is_node(a) or is_node(b) else isinstance(a, K) and a.val == b or type(a) is type(b) and a == b

    def ask(rule, cons, what, want, f):
        g = got(f)
        g = [i.val if isinstance(i, K) else i for i in g] if isinstance(g, list) else g
        x.expect(same_(g, want), rule, cons, f"{what} gives {say(g)}, expected {say(want)}", x.last.loc if isinstance(g, str) and g.startswith("raises") and x.last else None)

    for k, n in enumerate(t.nodes):
        if k % PARTS != part:
            continue
        c = n.cls.name
        w = where(t, n)
        ask("root", f"{c}.schema_root", f"schema_root of {w}", t.root, lambda: x.call(n, "schema_root"))
        if n is not t.root and not t.istree[n]:
            ask("data-parent", f"{c}.data_parent", f"data_parent of {w}", t.dparent(n), lambda: x.call(n, "data_parent"))
        if t.named(n):
            p = t.spath(n)
            for q in (p, p[1:]):
                ask("schema-path", "DataModel.get_schema_node", f"get_schema_node({q!r})", n, lambda: x.call(dm, "get_schema_node", K(q)))
            for bad in (p + "/nil", p.rpartition("/")[0] + "/" + p.rpartition("/")[2] + "x", p + "/zz:a", p + ("/m:nil" if t.qn(n)[1] == "o" else "/o:nil")):
                ask("path-to-nothing", "DataModel.get_schema_node", f"get_schema_node({bad!r})", None, lambda: x.call(dm, "get_schema_node", K(bad)))
            for a in t.chain(n)[:-1]:
                r = t.route(n, a)
                ask("schema-route", f"{a.cls.name}.get_schema_descendant", f"get_schema_descendant({r}) of {where(t, a)}", n, lambda: x.call(a, "get_schema_descendant", Lst("list", [Lst("tuple", [K(i) for i in e]) for e in r])))
        if t.isdata[n] and not t.inop(n):
            ask("instance-name", f"{c}.iname", f"iname of {w}", t.iname(n), lambda: x.call(n, "iname"))
            ask("data-path", f"{c}.data_path", f"data_path of {w}", t.dpath(n), lambda: x.call(n, "data_path"))
            p = t.dpath(n)
            ask("data-path", "DataModel.get_data_node", f"get_data_node({p!r})", n, lambda: x.call(dm, "get_data_node", K(p)))
            kids = t.data(n) if "children" in n.fields else []
            for nm in ("nil", "a", "a1"):
                for q in ((nm, t.qn(n)[1]), (nm, "o" if t.qn(n)[1] == "m" else "m")):
                    want = next((k for k in kids if t.qn(k) == q), None)
                    path = p + "/" + (nm if q[1] == t.qn(n)[1] else f"{q[1]}:{nm}")
                    ask("path-to-nothing" if want is None else "data-path", "DataModel.get_data_node", f"get_data_node({path!r})", want, lambda: x.call(dm, "get_data_node", K(path)))
        elif t.named(n) and t.spath(n) != "/":
            # no data path: the name alone of a choice, case, rpc, notification
            d = t.dparent(n)
            p = (t.dpath(d) if d is not None else "") + "/" + (t.qn(n)[0] if d is not None and t.qn(d)[1] == t.qn(n)[1] else ":".join(t.qn(n)[::-1]))
            if not t.inop(n):
                want = t.datachild(d if d is not None else t.root, *t.qn(n))
                ask("data-path-of-no-data-node", "DataModel.get_data_node", f"get_data_node({p!r})", want, lambda: x.call(dm, "get_data_node", K(p)))
        if "children" in n.fields:
            ask("data-children", f"{c}.data_children", f"data_children of {w}", t.data(n), lambda: x.call(n, "data_children"))
            for nm, ns in names:
                ask("child", f"{c}.get_child", f"get_child({nm!r}, {ns!r}) of {w}", t.child(n, nm, ns), lambda: x.call(n, "get_child", K(nm), K(ns)))
                ask("data-child", f"{c}.get_data_child", f"get_data_child({nm!r}, {ns!r}) of {w}", t.datachild(n, nm, ns), lambda: x.call(n, "get_data_child", K(nm), K(ns)))
                if ns == t.id[n][1]:
                    ask("child", f"{c}.get_child", f"get_child({nm!r}) of {w}", t.child(n, nm, ns), lambda: x.call(n, "get_child", K(nm)))
                    ask("data-child", f"{c}.get_data_child", f"get_data_child({nm!r}) of {w}", t.datachild(n, nm, ns), lambda: x.call(n, "get_data_child", K(nm)))
            for ct in (None, "config", "nonconfig", "all"):
                v = CTYPES[ct] if ct else t.ctype(n)
                want = [k for k in children(x, n) if k.cls.name not in ("RpcActionNode", "NotificationNode") and t.ctype(k) & v]
                ask("filter", f"{c}.filter_children", f"filter_children({ct or ''}) of {w}", want, lambda: x.call(n, "filter_children", *([x.I.getattr_(x.p.cls("ContentType"), ct)] if ct else [])))
        if not t.inop(n) and (t.named(n) or n is t.root):
            ask("state-roots", f"{c}.state_roots", f"state_roots of {w}", [t.dpath(s) for s in t.states(n)], lambda: x.call(n, "state_roots"))
    if part == 0:
        for p in ("/", ""):
            ask("schema-path", "DataModel.get_schema_node", f"get_schema_node({p!r})", t.root, lambda: x.call(dm, "get_schema_node", K(p)))
        for p in ("/c", "c", "/c/m:a", "/m:c/m:a", "//m:c", "/m:c/o:c/o:a"):
            for f in ("get_schema_node", "get_data_node"):
                ask("malformed-path", f"DataModel.{f}", f"{f}({p!r})", "raises InvalidSchemaPath", lambda: x.call(dm, f, K(p)))


def routes(x, t):
    """split_instance_route at every data node of the route of an instance."""
    dm = x.sc.dm
    def items(r):
        return [x.I.force(x.I.str_(i)).val for i in seq(x.I, r)]
    for text in ("/m:top=x,y/w=1", "/m:c/a", "/m:c/o:c/e", "/m:c/a1=k/c/c", "/m:c/b1x/a", "/m:c/o:a", "/m:tl=3", "/m:c/gc/gs", "/m:c/o:ws/a", "/o:c/a"):
        r = x.call(dm, "parse_resource_id", K(text))
        whole = items(r)
        # positions after each data node: the names of the route (keys belong to the name before)
        names = [i for i, o in enumerate(seq(x.I, r)) if x.I.force(o).cls.name == "MemberName"]
        ends = names[1:] + [len(whole)]
        n, onroute = t.root, {}
        for i, e in zip(names, ends):
            nm = whole[i].lstrip("/")
            ns, _, loc = nm.rpartition(":")
            n = t.datachild(n, loc, ns or t.qn(n)[1])
            onroute[n] = e
        for d in t.nodes:
            if not t.isdata[d] or t.inop(d):
                continue
            g = x.attempt(lambda: x.call(d, "split_instance_route", r))
            want = (whole[:onroute[d]], whole[onroute[d]:]) if d in onroute else None
            if g[0] == "ok":
                v = x.I.force(g[1])
                v = None if isinstance(v, K) and v.val is None else tuple(items(i) for i in v.items)
            else:
                v = "raises " + g[1]
            x.expect(v == want, "split-route", f"{d.cls.name}.split_instance_route", f"split_instance_route({text}) of {t.spath(d)} gives {v}, expected {want}", x.last.loc if g[0] != "ok" else None)


PARTS = 8


def run(ck):
    ck.floor = 14000
    for name, make in (("c44", lambda p: World(p, modules())), ("sweep", lambda p: World(p, [widened()]))):
        w = world(ck, name, make)
        for part in range(PARTS):
            def t(x, part=part):
                check(x, Tree(x, x.I.force(x.attr(x.sc.dm, "schema"))), part)
            ck.scenario(f"{name} paths {part}", t, w, Config(steps=10**7, rec=120, depth=400))
    ck.scenario("c44 routes", lambda x: routes(x, Tree(x, x.I.force(x.attr(x.sc.dm, "schema")))), world(ck, "c44", lambda p: World(p, modules())), Config(steps=10**7, rec=120, depth=400))
