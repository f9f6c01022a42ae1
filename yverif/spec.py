"""Reference semantics of YANG data definitions, written from RFC 7950.

A schema is described once with `N` nodes; `statements` turns the description
into the abstract YANG module from which the repository's code builds its data
model, and the functions below say what that model must accept (`valid`) and
complete (`with_defaults`).  Conditions (when, must) are uninterpreted atoms:
`T(name, path)` yields their outcome in the current abstract world."""
from .world import S, leaf as sleaf, module

CONFIG, STATE, ALL = 1, 2, 3


class N:
    def __init__(self, kind, name=None, *children, **kw):
        self.kind = kind
        self.name = name
        self.children = list(children)
        self.when = kw.pop("when", None)
        self.must = kw.pop("must", ())
        if isinstance(self.must, str):
            self.must = (self.must,)
        self.config = kw.pop("config", None)
        self.mandatory = kw.pop("mandatory", False)
        self.presence = kw.pop("presence", False)
        self.default = kw.pop("default", None)
        self.type = kw.pop("type", "string")
        self.keys = kw.pop("keys", ())
        self.min = kw.pop("min", 0)
        self.max = kw.pop("max", None)
        self.via = kw.pop("via", "uses")
        self.feature = kw.pop("feature", None)
        self.extra = kw.pop("extra", ())
        self.parent = None
        assert not kw, kw
        for c in self.children:
            c.parent = self

    def __repr__(self):
        return f"{self.kind}:{self.name}"


def leaf(name, **kw): return N("leaf", name, **kw)
def leaflist(name, **kw): return N("leaf-list", name, **kw)
def cont(name, *ch, **kw): return N("container", name, *ch, **kw)
def lst(name, *ch, **kw): return N("list", name, *ch, **kw)
def choice(name, *ch, **kw): return N("choice", name, *ch, **kw)
def case(name, *ch, **kw): return N("case", name, *ch, **kw)
def group(*ch, **kw): return N("group", None, *ch, **kw)
def anydata(name, **kw): return N("anydata", name, **kw)


def statements(nodes, modname="m"):
    """The abstract module defining `nodes` at its top level."""
    tops, groupings = [], []

    def subs(n):
        r = []
        if n.when:
            r.append(S("when", n.when))
        if n.feature:
            r.append(S("if-feature", n.feature))
        for m in n.must:
            r.append(S("must", m))
        if n.config is not None and n.kind != "group":
            r.append(S("config", "true" if n.config else "false"))
        if n.mandatory:
            r.append(S("mandatory", "true"))
        if n.presence:
            r.append(S("presence", "p"))
        if n.default is not None:
            for d in (n.default if isinstance(n.default, (list, tuple)) else [n.default]):
                r.append(S("default", d))
        if n.keys:
            r.append(S("key", " ".join(n.keys)))
        if n.min:
            r.append(S("min-elements", str(n.min)))
        if n.max is not None:
            r.append(S("max-elements", str(n.max)))
        r.extend(n.extra)
        return r

    def path(n):
        p = []
        while n is not None:
            if n.kind != "group":
                p.insert(0, f"{modname}:{n.name}")
            n = n.parent
        return "/" + "/".join(p)

    def one(n):
        if n.kind == "group":
            if n.via == "uses":
                g = f"g{len(groupings)}"
                groupings.append(None)
                groupings[int(g[1:])] = S("grouping", g, *[s for c in n.children for s in one(c)])
                return [S("uses", g, *subs(n))]
            tops.append(S("augment", path(n), *subs(n), *[s for c in n.children for s in one(c)]))
            return []
        if n.kind in ("leaf", "leaf-list"):
            t = n.type if isinstance(n.type, tuple) else S("type", n.type)
            return [S(n.kind, n.name, t, *subs(n))]
        return [S(n.kind, n.name, *subs(n), *[s for c in n.children for s in one(c)])]
    body = [s for n in nodes for s in one(n)]
    return module(modname, *groupings, *body, *tops)


def ctype(n):
    """Content type of a data node: terminals are config or state, others inherit."""
    p = n
    while p is not None:
        if p.config is False:
            return STATE
        p = p.parent
    return CONFIG if n.kind in ("leaf", "leaf-list", "anydata") else ALL


def data_nodes(nodes):
    for n in nodes:
        if n.kind in ("choice", "case", "group"):
            yield from data_nodes(n.children)
        else:
            yield n


def cases(ch):
    """(case node or shorthand, conditions on the way, its children)."""
    for c in ch.children:
        if c.kind == "case":
            yield c, [c.when] if c.when else [], c.children
        elif c.kind == "group":
            fake = N("choice", ch.name)
            fake.children = c.children
            for cc, ws, kids in cases(fake):
                yield cc, ([c.when] if c.when else []) + ws, kids
        else:
            yield c, [], [c]


def is_mandatory(n, ct):
    """Is data node n required (in content type ct) where its parent exists?"""
    if n.kind in ("list", "leaf-list"):
        m = n.min > 0
        return m and bool(ctype(n) & ct) and not (ct == CONFIG and ctype(n) == STATE)
    if n.kind == "container":
        if n.presence:
            return False
        return any(mand_in(c, ct) for c in n.children)
    key = n.parent is not None and n.parent.kind == "list" and n.name in n.parent.keys
    return (n.mandatory or key) and bool(ctype(n) & ct)


def mand_in(n, ct):
    if n.kind == "choice":
        return n.mandatory and (ct != CONFIG or has_config(n))
    if n.kind == "case":
        return False
    if n.kind == "group":
        return any(mand_in(c, ct) for c in n.children)
    return is_mandatory(n, ct)


def has_config(n):
    return any(ctype(c) & CONFIG for c in data_nodes(n.children))


def valid(nodes, inst, ct, T, path=(), prefix="m:"):
    """Why `inst` (nested dicts and lists) is not valid, or None."""
    seen = set()

    def iname(n):
        return (prefix if not path else "") + n.name

    def cond(w, ctx):
        return w is None or T(w, ctx)

    def scan(ns, on):
        for n in ns:
            if n.kind == "choice":
                act = on and cond(n.when, path)
                cs = [(c, ws, kids, [d for d in data_nodes(kids) if iname(d) in inst]) for c, ws, kids in cases(n)]
                present = [x for x in cs if x[3]]
                for c, ws, kids, ds in cs:
                    for d in data_nodes(kids):
                        seen.add(iname(d))
                if len(present) > 1:
                    return f"two cases of {n.name}"
                if present:
                    c, ws, kids, ds = present[0]
                    r = scan(kids, act and all(cond(w, path) for w in ws))
                    if r:
                        return r
                elif act and mand_in(n, ct):
                    return f"missing {n.name}"
            elif n.kind == "group":
                r = scan(n.children, on and cond(n.when, path))
                if r:
                    return r
            else:
                nm = iname(n)
                seen.add(nm)
                present = nm in inst
                if not present and not is_mandatory(n, ct):
                    continue
                act = on and bool(ctype(n) & ct) and cond(n.when, path + (nm,))
                if present and not act:
                    return f"{nm} not allowed"
                if not present and act:
                    return f"missing {nm}"
        return None
    r = scan(nodes, True)
    if r:
        return r
    for k in inst:
        if k not in seen:
            return f"unknown {k}"
    for n in data_nodes(nodes):
        v = inst.get(iname(n))
        if v is None:
            continue
        p = path + (iname(n),)
        if n.kind == "container":
            r = valid(n.children, v, ct, T, p, prefix)
        elif n.kind == "list":
            for i, e in enumerate(v):
                r = valid(n.children, e, ct, T, p + (i,), prefix)
                if r:
                    break
        if r:
            return r
    return None


def atoms(nodes):
    for n in nodes:
        if n.when:
            yield n.when
        yield from atoms(n.children)


class InvalidInstance(Exception):
    """The abstract instance contradicts the schema; nothing is specified for it."""


def default_in_force(n):
    """Raw default values of an absent terminal, or None."""
    key = n.parent is not None and n.parent.kind == "list" and n.name in n.parent.keys
    if n.mandatory or n.min or key:
        return None
    if n.default is None:
        return None
    return list(n.default) if n.kind == "leaf-list" and isinstance(n.default, (list, tuple)) else [n.default] if n.kind == "leaf-list" else n.default


def with_defaults(nodes, inst, ct, T, path=(), prefix="m:", added=None):
    """RFC 7950 sections 7.5.1, 7.6.1, 7.7.2, 7.9.3: `inst` completed.

    Implicit non-presence containers are included only if they get content;
    paths of the topmost additions are put in `added`."""
    res = dict(inst)
    added = set() if added is None else added

    def iname(n):
        return (prefix if not path else "") + n.name

    def cond(w, ctx):
        return w is None or T(w, ctx)

    def scan(ns):
        for n in ns:
            if n.kind == "group":
                if cond(n.when, path):
                    scan(n.children)
                elif any(iname(d) in inst for d in data_nodes(n.children)):
                    raise InvalidInstance
            elif n.kind == "choice":
                if not ct & (STATE if n.config is False else ALL):
                    continue
                cs = list(cases(n))
                present = [k for c, ws, k in cs if any(iname(d) in inst for d in data_nodes(k))]
                if len(present) > 1:
                    raise InvalidInstance
                if not cond(n.when, path):
                    if present:
                        raise InvalidInstance
                elif present:
                    scan(present[0])
                elif n.default:
                    for c, ws, k in cs:
                        if c.name == n.default and all(cond(w, path) for w in ws):
                            scan(k)
            elif n.kind == "container":
                nm = iname(n)
                if nm in inst:
                    res[nm] = with_defaults(n.children, inst[nm], ct, T, path + (nm,), prefix, added)
                elif not n.presence and ct & ctype(n) and cond(n.when, path + (nm,)):
                    sub = with_defaults(n.children, {}, ct, T, path + (nm,), prefix, set())
                    if sub:
                        res[nm] = sub
                        added.add(path + (nm,))
            elif n.kind == "list":
                nm = iname(n)
                if nm in inst:
                    res[nm] = [with_defaults(n.children, e, ct, T, path + (nm, i), prefix, added) for i, e in enumerate(inst[nm])]
            elif n.kind != "anydata":
                nm = iname(n)
                d = default_in_force(n)
                if nm not in inst and d is not None and ct & ctype(n) and cond(n.when, path + (nm,)):
                    res[nm] = d
                    added.add(path + (nm,))
    scan(nodes)
    return res
