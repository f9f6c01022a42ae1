"""Reference compilation of YANG modules, written from RFC 7950.

Works by rewriting the statement tree: groupings are copied in, refinements and
deviations replace substatements, augments append to their targets.  Only
afterwards are the properties of each node read off its substatements.  Nothing
here follows the repository's own (object-level) way of building the schema."""
import re
from .world import S

NAMETEST = re.compile(r"(?<![\w.:-])([A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?)(?![\w.:-]|\()")

DATA = {"container", "leaf", "leaf-list", "list", "choice", "case", "anydata", "anyxml", "rpc", "action", "notification", "input", "output"}
SHORT = {"container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml"}
SINGLE = {"config", "default", "description", "mandatory", "max-elements", "min-elements", "ordered-by", "presence", "status", "type", "units", "when", "key"}


class Ctx:
    """Where a piece of text stands: its (sub)module, enclosing statements and
    the module whose namespace unprefixed node names belong to."""

    def __init__(self, ref, text, chain, ns):
        self.ref, self.text, self.chain, self.ns = ref, text, chain, ns

    def inside(self, stmt):
        return Ctx(self.ref, self.text, self.chain + (stmt,), self.ns)


class Prop:
    def __init__(self, stmt, ctx):
        self.kw, self.arg, self.subs, self.pref = stmt
        self.ctx = ctx

    def sub(self, kw, d=None):
        return next((s[1] for s in self.subs if s[0] == kw), d)


class Node:
    def __init__(self, kw, name, ns, parent, ctx):
        self.kw, self.name, self.ns, self.parent, self.ctx = kw, name, ns, parent, ctx
        self.props, self.kids = [], []
        self.group_when, self.group_status = [], []     # of the uses/augment statements it came through

    def all(self, kw):
        return [p for p in self.props if p.kw == kw]

    def one(self, kw):
        r = self.all(kw)
        return r[-1] if r else None

    def arg(self, kw, d=None):
        p = self.one(kw)
        return p.arg if p else d

    def path(self):
        n, r = self, []
        while n.parent is not None:
            r.insert(0, f"{n.ns}:{n.name}")
            n = n.parent
        return "/" + "/".join(r)

    def walk(self):
        for k in self.kids:
            yield k
            yield from k.walk()

    def up(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent


class Rejected(Exception):
    pass


class Ref:
    def __init__(self, modules, submodules=(), features=None, keep_obsolete=(), implemented=None):
        self.texts = {m[1]: m for m in list(modules) + list(submodules)}
        self.main = {m[1]: m[1] for m in modules}
        for s in submodules:
            self.main[s[1]] = next(x[1] for x in s[2] if x[0] == "belongs-to")
        self.features = features or {}
        self.keep = set(keep_obsolete)
        self.implemented = [m[1] for m in modules] if implemented is None else implemented
        self.identity = {}
        self.root = Node("root", None, None, None, None)
        self.compile()

    # ---- names ----
    def prefixes(self, text):
        r = {}
        for s in self.texts[text][2]:
            if s[0] == "prefix":
                r[s[1]] = text
            elif s[0] == "belongs-to":
                r[next(x[1] for x in s[2] if x[0] == "prefix")] = s[1]
            elif s[0] == "import":
                r[next(x[1] for x in s[2] if x[0] == "prefix")] = s[1]
        return r

    def module_of(self, prefix, ctx):
        m = self.prefixes(ctx.text)
        if prefix not in m:
            raise Rejected("prefix " + prefix)
        return m[prefix]

    def qname(self, name, ctx):
        """(name, module) of a data node name in a context."""
        p, s, l = name.partition(":")
        return (l, self.main.get(self.module_of(p, ctx), p)) if s else (p, ctx.ns)

    def pname(self, name, ctx):
        """(name, module) of an identity or feature: the text's own module if unprefixed."""
        p, s, l = name.partition(":")
        return (l, self.main[self.module_of(p, ctx)]) if s else (p, self.main[ctx.text])

    def parts(self, mod):
        """A module with its submodules."""
        return [mod] + [t for t in self.texts if self.main[t] == mod and t != mod]

    def definition(self, kw, name, ctx):
        p, s, l = name.partition(":")
        if s:
            mod = self.main[self.module_of(p, ctx)]
            name = l
            if mod == self.main[ctx.text]:
                s = ""
        if not s:
            for i in range(len(ctx.chain), 0, -1):
                for d in ctx.chain[i - 1][2]:
                    if d[0] == kw and d[1] == name:
                        return d, Ctx(self, ctx.text, ctx.chain[:i], ctx.ns)
            mod = self.main[ctx.text]
        for t in self.parts(mod):
            for d in self.texts[t][2]:
                if d[0] == kw and d[1] == name:
                    return d, Ctx(self, t, (self.texts[t],), ctx.ns)
        raise Rejected(f"{kw} {name}")

    def on(self, stmt, ctx):
        for s in stmt[2]:
            if s[0] == "if-feature":
                n, m = self.pname(s[1].replace("not ", ""), ctx)
                if (n in self.features.get(m, ())) == s[1].startswith("not "):
                    return False
        return True

    # ---- building ----
    def compile(self):
        augs, devs = [], []
        for m in self.implemented:
            for t in self.parts(m):
                ctx = Ctx(self, t, (self.texts[t],), m)
                for s in self.texts[t][2]:
                    if s[0] == "augment":
                        augs.append((s, ctx))
                    elif s[0] == "deviation":
                        devs.append((s, ctx))
                    else:
                        self.add(self.root, s, ctx)
        self.augments(self.root, augs)
        for m in self.texts:
            ctx = Ctx(self, m, (self.texts[m],), self.main[m])
            for s in self.texts[m][2]:
                if s[0] == "identity" and self.on(s, ctx):
                    self.identity[(s[1], self.main[m])] = [self.pname(b[1], ctx) for b in s[2] if b[0] == "base"]
        for s, ctx in devs:
            self.deviation(s, ctx)

    def augments(self, base, augs):
        while augs:
            rest = []
            for s, ctx in augs:
                if not self.on(s, ctx):
                    continue
                tgt = self.find(base, s[1], ctx)
                if tgt is None:
                    rest.append((s, ctx))
                else:
                    self.graft(tgt, s, ctx)
            if len(rest) == len(augs):
                return
            augs = rest

    def graft(self, tgt, s, ctx):
        tmp = Node(tgt.kw, tgt.name, tgt.ns, None, None)
        for x in s[2]:
            self.add(tmp, x, ctx.inside(s))
        for k in tmp.kids:
            k.parent = tgt
            k.group_when += [Prop(x, ctx) for x in s[2] if x[0] == "when"]
            k.group_status += [Prop(x, ctx) for x in s[2] if x[0] == "status"]
            tgt.kids.append(k)

    def find(self, base, path, ctx):
        n = base
        for st in path.strip("/").split("/"):
            q = self.qname(st, ctx)
            n = next((k for k in n.kids if (k.name, k.ns) == q), None)
            if n is None:
                return None
        return n

    def add(self, parent, stmt, ctx):
        kw, arg, subs, pref = stmt
        if pref:
            full = self.module_of(pref, ctx) + ":" + kw
            if full.startswith("ietf-netconf-acm:"):
                parent.props.append(Prop((full, arg, subs, None), ctx))
            return
        if kw == "uses":
            return self.uses(parent, stmt, ctx)
        if kw not in DATA:
            if kw not in ("grouping", "typedef") and parent.kw != "root":
                parent.props.append(Prop(stmt, ctx))
            return
        if not self.on(stmt, ctx):
            return
        if kw in ("input", "output"):
            n = next(k for k in parent.kids if k.kw == kw)
        else:
            if parent.kw == "choice" and kw in SHORT:
                c = Node("case", arg, ctx.ns, parent, ctx)
                parent.kids.append(c)
                parent = c
            n = Node(kw, arg, ctx.ns, parent, ctx)
            parent.kids.append(n)
            if kw in ("rpc", "action"):
                n.kids = [Node(i, i, ctx.ns, n, ctx) for i in ("input", "output")]
        for s in subs:
            self.add(n, s, ctx.inside(stmt))

    def uses(self, parent, stmt, ctx):
        if not self.on(stmt, ctx):
            return
        g, gctx = self.definition("grouping", stmt[1], ctx)
        gctx = Ctx(self, gctx.text, gctx.chain + (g,), ctx.ns)
        tmp = Node(parent.kw, parent.name, parent.ns, None, None)
        for s in g[2]:
            if s[0] in DATA or s[0] == "uses":
                self.add(tmp, s, gctx)
        self.augments(tmp, [(s, ctx) for s in stmt[2] if s[0] == "augment"])
        for s in stmt[2]:
            if s[0] == "refine":
                self.refine(tmp, s, ctx)
        for k in tmp.kids:
            k.parent = parent
            k.group_when += [Prop(x, ctx) for x in stmt[2] if x[0] == "when"]
            parent.kids.append(k)

    def refine(self, base, s, ctx):
        t = self.find(base, s[1], ctx)
        if t is None:
            raise Rejected("refine " + s[1])
        if not self.on(s, ctx):
            t.parent.kids.remove(t) if t.parent else base.kids.remove(t)
            return
        kws = {x[0] for x in s[2]} & SINGLE
        t.props = [p for p in t.props if p.kw not in kws] + [Prop(x, ctx) for x in s[2]]

    def deviation(self, s, ctx):
        t = self.find(self.root, s[1], ctx)
        if t is None:
            return
        for d in s[2]:
            if d[0] != "deviate":
                continue
            if d[1] == "not-supported":
                t.parent.kids.remove(t)
                return
            ps = [Prop(x, ctx) for x in d[2]]
            if d[1] == "add":
                t.props += ps
            elif d[1] == "replace":
                t.props = [p for p in t.props if p.kw not in {q.kw for q in ps}] + ps
            elif d[1] == "delete":
                for q in ps:
                    hit = [p for p in t.props if p.kw == q.kw and self.text(p, t) == self.text(q, t)]
                    for p in hit:
                        t.props.remove(p)

    def text(self, p, n):
        if p.kw == "default" and n.kw == "choice":
            return self.qname(p.arg, p.ctx)
        if p.kw == "unique":
            return [tuple(self.qname(x, p.ctx) for x in n.split("/")) for n in p.arg.split()]
        if p.kw == "must":
            return self.xpath(p)
        return p.arg

    # ---- properties ----
    def xpath(self, p):
        """Canonical text of a path-like XPath: unprefixed names get the current module."""
        def name(m):
            return m.group(0) if m.group(1) in ("and", "or", "div", "mod") else "%s:%s" % self.qname(m.group(1), p.ctx)[::-1]
        return "".join(t if i % 2 else NAMETEST.sub(name, t) for i, t in enumerate(re.split("('[^']*')", p.arg)))

    def type(self, p):
        """(builtin name, type statement and context of the chain from the use inwards)."""
        chain = [((p.kw, p.arg, p.subs, p.pref), p.ctx)]
        from_ = p
        defs = []
        while ":" in from_.arg or from_.arg not in BUILTIN:
            d, dctx = self.definition("typedef", from_.arg, from_.ctx)
            inner = dctx.inside(d)
            defs.append((d, inner))
            t = next(x for x in d[2] if x[0] == "type")
            from_ = Prop(t, inner)
            chain.append((t, inner))
        return from_.arg, chain, defs

    def config(self, n):
        for a in [n] + list(n.up()):
            if a.kw in ("rpc", "action", "notification") or a.arg("config") == "false":
                return False
        return True

    def status(self, n):
        p = n.one("status") or (n.group_status[0] if n.group_status else None)
        if p is None:
            return self.status(n.parent) if n.parent.parent is not None else "+"
        if p.arg == "obsolete":
            return "O" if self.main[p.ctx.text] in self.keep else "o"
        return {"current": "+", "deprecated": "x"}[p.arg]

    def is_key(self, n):
        l = n.parent
        return n.kw == "leaf" and l.kw == "list" and (n.name, n.ns) in self.keys(l)

    def keys(self, l):
        p = l.one("key")
        return [self.qname(k, p.ctx) for k in p.arg.split()] if p else []

    def mandatory(self, n, cond=True):
        """With cond, conditional children count as well."""
        if n.kw in ("leaf", "choice", "anydata", "anyxml"):
            return n.arg("mandatory") == "true" or self.is_key(n)
        if n.kw in ("list", "leaf-list"):
            return int(n.arg("min-elements", "0")) > 0
        if n.kw == "container" and not n.one("presence"):
            return any(self.mandatory(k, cond) for k in n.kids if k.kw not in ("rpc", "action", "notification") and (cond or not (k.group_when or k.one("when") or k.one("status") or k.group_status)))
        return False

    def default(self, n):
        """None, one raw value, or a list of raw values."""
        if n.kw not in ("leaf", "leaf-list") or self.mandatory(n):
            return None
        t = n.one("type")
        base, chain, defs = self.type(t)
        ds = n.all("default")
        if ds:
            r = [self.value(n, p.arg, p.ctx, t) for p in ds]
        else:
            r = []
            for d, ctx in defs:
                dv = next((x for x in d[2] if x[0] == "default"), None)
                if dv:
                    r = [self.value(n, dv[1], ctx, t)]
                    break
        return None if not r else r if n.kw == "leaf-list" else r[0]

    def value(self, n, text, ctx, t):
        """JSON value of a default written in ctx for type statement t."""
        base, chain, _ = self.type(t)
        if base == "union":
            mem = [Prop(x, chain[-1][1]) for x in chain[-1][0][2] if x[0] == "type"]
            for m in mem:
                v = self.value(n, text, ctx, m)
                if v is not None:
                    return v
            return None
        if base == "leafref":
            path = next(Prop(x, c) for s, c in chain for x in s[2] if x[0] == "path")
            tgt = self.find(self.root, path.arg, path.ctx) if path.arg.startswith("/") else self.relative(n, path)
            return self.value(tgt, text, ctx, tgt.one("type"))
        if base == "identityref":
            try:
                q = self.pname(text, ctx)
            except Rejected:
                return None
            bases = [self.pname(x[1], c) for s, c in chain[-1:] for x in s[2] if x[0] == "base"]
            return f"{q[1]}:{q[0]}" if q in self.identity and all(self.derived(q, b) for b in bases) else None
        if base in ("int8", "int16", "int32", "uint8", "uint16", "uint32"):
            try:
                return int(text)
            except ValueError:
                return None
        if base == "boolean":
            return {"true": True, "false": False}.get(text)
        if base == "enumeration":
            return text if any(text in [e[1] for e in s[2] if e[0] == "enum"] for s, c in chain) else None
        return text

    def derived(self, q, b):
        return any(x == b or self.derived(x, b) for x in self.identity.get(q, ()))

    def relative(self, n, path):
        for st in path.arg.split("/"):
            if st == "..":
                n = n.parent
                while n.kw in ("choice", "case"):
                    n = n.parent
            else:
                q = self.qname(st, path.ctx)
                n = next(k for k in self.data(n) if (k.name, k.ns) == q)
        return n

    def data(self, n):
        for k in n.kids:
            if k.kw in ("choice", "case"):
                yield from self.data(k)
            else:
                yield k

    def units(self, n):
        if n.one("units"):
            return n.arg("units")
        for d, ctx in self.type(n.one("type"))[2]:
            u = next((x for x in d[2] if x[0] == "units"), None)
            if u:
                return u[1]
        return None

    def whens(self, n):
        return sorted(self.xpath(p) for p in n.group_when) + [self.xpath(p) for p in n.all("when")]

    def iname(self, n):
        if n.kw in ("input", "output"):
            return f"{n.ns}:{n.name}"
        dp = next((a for a in n.up() if a.kw not in ("choice", "case")), None)
        if dp is not None and dp.kw == "notification":
            # not a data node: its payload stands at the top
            dp = next((a for a in dp.up() if a.kw not in ("choice", "case")), None)
        return n.name if dp is not None and dp.ns == n.ns else f"{n.ns}:{n.name}"

    def facts(self, n):
        f = {"name": n.name, "ns": n.ns, "class": CLASS[n.kw]}
        f["config"] = self.config(n)
        f["status"] = self.status(n)
        f["description"] = n.arg("description")
        f["when"] = self.whens(n)
        if n.kw in ("input", "output", "notification", "container", "list", "leaf", "leaf-list", "anydata", "anyxml"):
            f["must"] = [(self.xpath(p), p.sub("error-app-tag", "must-violation"), p.sub("error-message")) for p in n.all("must")]
        if n.kw in ("container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml"):
            m = self.mandatory(n)
            if m == self.mandatory(n, False):
                f["mandatory"] = m
        if n.kw in ("container", "leaf", "leaf-list", "list", "anydata", "anyxml"):
            f["iname"] = self.iname(n)
        if n.kw not in ("choice", "case"):
            d = {"default-deny-all": "all", "default-deny-write": "write"}
            f["default_deny"] = next((d[p.kw.split(":")[1]] for p in n.props if p.kw.startswith("ietf-netconf-acm:")), "none")
        if n.kw == "container":
            f["presence"] = bool(n.one("presence"))
        if n.kw in ("list", "leaf-list"):
            f["min_elements"] = int(n.arg("min-elements", "0"))
            mx = n.arg("max-elements", "unbounded")
            f["max_elements"] = None if mx == "unbounded" else int(mx)
            f["user_ordered"] = n.arg("ordered-by") == "user"
        if n.kw == "list":
            f["keys"] = self.keys(n)
            f["unique"] = [["/".join("%s:%s" % self.qname(x, p.ctx)[::-1] for x in u.split("/")) for u in p.arg.split()] for p in n.all("unique")]
        if n.kw == "choice":
            d = n.one("default")
            f["default_case"] = self.qname(d.arg, d.ctx) if d else None
        if n.kw in ("leaf", "leaf-list"):
            base, chain, defs = self.type(n.one("type"))
            f["type"] = base
            f["typename"] = chain[0][0][1].split(":")[-1] if defs else None
            f["units"] = self.units(n)
            f["default"] = self.default(n)
            if base == "leafref":
                f["path"] = self.xpath(next(Prop(x, c) for s, c in chain for x in s[2] if x[0] == "path"))
            elif base == "identityref":
                f["bases"] = [self.pname(x[1], c) for s, c in chain[-1:] for x in s[2] if x[0] == "base"]
        return f


BUILTIN = {"binary", "bits", "boolean", "decimal64", "empty", "enumeration", "identityref", "instance-identifier", "int8", "int16", "int32", "int64", "leafref", "string", "uint8", "uint16", "uint32", "uint64", "union"}
CLASS = {"container": "ContainerNode", "leaf": "LeafNode", "leaf-list": "LeafListNode", "list": "ListNode", "choice": "ChoiceNode", "case": "CaseNode", "anydata": "AnydataNode", "anyxml": "AnyxmlNode",
         "rpc": "RpcActionNode", "action": "RpcActionNode", "notification": "NotificationNode", "input": "InputNode", "output": "OutputNode"}


def type_digest(ref, n, t, config):
    """Expected members of the type digest that follow from the statements."""
    base, chain, defs = ref.type(t)
    d = {"base": base}
    if defs:
        d["derived"] = chain[0][0][1].split(":")[-1]
    if base == "leafref":
        path = next(Prop(x, c) for s, c in chain for x in s[2] if x[0] == "path")
        tgt = ref.find(ref.root, path.arg, path.ctx) if path.arg.startswith("/") else ref.relative(n, path)
        d["ref_type"] = type_digest(ref, tgt, tgt.one("type"), config)
    elif base == "enumeration":
        if config:
            d["enums"] = list(enums(ref, chain, "enum", "value"))
    elif base == "bits":
        b = enums(ref, chain, "bit", "position")
        d["bits"] = [next((n for n, v in b.items() if v == i), None) for i in range(max(b.values()) + 1)]
    elif base == "identityref":
        if config:
            bases = [ref.pname(x[1], c) for s, c in chain[-1:] for x in s[2] if x[0] == "base"]
            d["identities"] = sorted([list(q) for q in ref.identity if q[1] in ref.implemented and all(ref.derived(q, b) for b in bases)])
    elif base == "decimal64":
        d["fraction_digits"] = int(next(x[1] for x in chain[-1][0][2] if x[0] == "fraction-digits"))
    elif base == "string":
        pats = [x for s, c in chain[::-1] for x in s[2] if x[0] == "pattern"]
        for key, inv in (("patterns", False), ("neg_patterns", True)):
            ps = [x[1] for x in pats if any(y[0] == "modifier" for y in x[2]) == inv]
            if ps:
                d[key] = ps
    for kw, key in (("range", "range"), ("length", "length")):
        texts = [x[1] for s, c in chain[::-1] for x in s[2] if x[0] == kw]
        if texts:
            conv = str if base in ("int64", "uint64", "decimal64") else int
            d[key] = [[conv(e.strip()) for e in (p.split("..") * 2)[:2]] if kw == "range" else [int(e) for e in p.split("..")] for p in texts[-1].split("|")]
    return d


def enums(ref, chain, kw, val):
    """name -> value of an enumeration or bits type."""
    vals = {}
    for s, c in chain[::-1]:
        es = [e for e in s[2] if e[0] == kw]
        if not es:
            continue
        if not vals:
            nxt = None
            for e in es:
                v = next((x[1] for x in e[2] if x[0] == val), None)
                v = int(v) if v is not None else nxt or 0
                if ref.on(e, c):
                    vals[e[1]] = v
                    nxt = v + 1 if nxt is None else max(nxt, v + 1)
        else:
            keep = {e[1] for e in es if ref.on(e, c)}
            vals = {n: v for n, v in vals.items() if n in keep}
    return vals


KINDS = {"rpc": "rpcaction", "action": "rpcaction"}


def digest(ref, n=None, config=True):
    if n is None:
        d = {"kind": "schematree", "config": True, "children": children(ref, ref.root, True)}
        return d
    d = {"kind": KINDS.get(n.kw, n.kw)}
    if ref.mandatory(n) != ref.mandatory(n, False) or n.kw == "notification":
        d["mandatory"] = "*"        # depends on the condition of a child
    elif ref.mandatory(n):
        d["mandatory"] = True
    if n.arg("description"):
        d["description"] = n.arg("description")
    if n.kw in ("leaf", "leaf-list"):
        d["type"] = type_digest(ref, n, n.one("type"), ref.config(n))
        if ref.default(n) is not None:
            d["default"] = ref.default(n)
        if ref.units(n):
            d["units"] = ref.units(n)
    elif n.kw not in ("anydata", "anyxml"):
        d["children"] = children(ref, n, ref.config(n))
    if n.kw == "container":
        d["presence"] = bool(n.one("presence"))
    if n.kw == "list":
        d["keys"] = [ref.iname(k) for q in ref.keys(n) for k in ref.data(n) if (k.name, k.ns) == q]
    return d


def children(ref, n, config):
    r = {}
    for k in ref.data(n):
        d = digest(ref, k)
        if config and not ref.config(k) and k.kw not in ("rpc", "action", "notification"):
            d["config"] = False
        r[ref.iname(k)] = d
    return r


def tree(ref, n=None, indent="", types=True):
    n = n or ref.root
    r = ""
    kids = sorted(n.kids, key=lambda k: (k.name, k.ns))
    for k in kids:
        r += indent + line(ref, k, types) + "\n" + tree(ref, k, indent + ("   " if k is kids[-1] else "|  "), types)
    return r


def line(ref, k, types):
    nm = k.name if k.parent.ns == k.ns else f"{k.ns}:{k.name}"
    s = ref.status(k) + "--"
    if k.kw == "case":
        return s + f":({nm})"
    s += "-x" if k.kw in ("rpc", "action") else "-n" if k.kw == "notification" else "rw" if ref.config(k) else "ro"
    s += f" ({nm})" if k.kw == "choice" else " " + nm
    if k.kw in ("leaf", "choice", "anydata", "anyxml") and not ref.mandatory(k):
        s += "?"
    if k.kw in ("list", "leaf-list"):
        s += "#" if k.arg("ordered-by") == "user" else "*"
    if k.kw == "list" and ref.keys(k):
        s += " [" + " ".join(q[0] for q in ref.keys(k)) + "]"
    if k.kw == "container" and k.one("presence"):
        s += "!"
    if k.kw in ("leaf", "leaf-list") and types:
        base, chain, defs = ref.type(k.one("type"))
        s += f" <{typename(ref, k, k.one('type'))}>"
    return s


def typename(ref, n, t):
    base, chain, defs = ref.type(t)
    return f"{chain[0][0][1].split(':')[-1]}({base})" if defs else base
