"""Canonical descriptions of compiled schemas, for comparing two models."""
from .common import *

SKIP = {"schema_data", "sctx", "parent", "val_count", "description"}


def is_node(o):
    return isinstance(o, Obj) and any(getattr(c, "name", None) == "SchemaNode" for c in o.cls.mro or ())


def describe(x, v, stack=()):
    """Canonical plain value of an abstract one; schema nodes by their path."""
    v = x.I.force(v)
    if id(v) in stack:
        return "^"
    st = stack + (id(v),)
    if isinstance(v, K):
        return v.val
    if isinstance(v, Obj):
        if is_node(v):
            return ("node", path_of(x, v))
        if v.payload is not None:
            r = describe(x, v.payload, st)
            return (v.cls.name, r)
        return (v.cls.name,) + tuple((k, describe(x, a, st)) for k, a in sorted(v.fields.items()) if k not in SKIP)
    if isinstance(v, Lst):
        r = [describe(x, a, st) for a in v.items]
        if v.kind in ("set", "frozenset"):
            return ("set",) + tuple(sorted(r, key=repr))
        return (v.kind,) + tuple(r)
    if isinstance(v, Dct):
        return ("dict",) + tuple((describe(x, k, st), describe(x, a, st)) for k, a in v.entries)
    if isinstance(v, Bound):
        return ("bound", getattr(v.fn, "qual", None) or repr(v.fn), describe(x, v.self_, st))
    if isinstance(v, BuiltinMethod):
        return ("bound", v.name, describe(x, v.recv, st))
    return show(term_of(v)) if isinstance(v, Sym) else repr(v)


def children(x, n):
    f = n.fields.get("children")
    return [x.I.force(c) for c in x.I.force(f).items] if f is not None else []


def ident(x, n):
    g = lambda f: x.I.force(n.fields[f]).val if f in n.fields and isinstance(x.I.force(n.fields[f]), K) else None
    return n.cls.name, g("ns"), g("name")


def path_of(x, n):
    p = []
    while isinstance(n, Obj):
        k, ns, nm = ident(x, n)
        par = n.fields.get("parent")
        par = x.I.force(par) if par is not None else None
        if isinstance(par, Obj):
            p.insert(0, f"{ns}:{nm}" if nm else k)
            n = par
        else:
            break
    return "/" + "/".join(p)


def dump(x, root, skip=()):
    """path -> {field: description} for every node below (and including) root.
    Order of siblings is given by the field `#children`."""
    out = {}

    def go(n, path):
        d = {"#class": n.cls.name}
        for k, a in sorted(n.fields.items()):
            if k in SKIP or k in skip or k == "children":
                continue
            d[k] = describe(x, a)
        kids = children(x, n)
        names = []
        for i, c in enumerate(kids):
            k, ns, nm = ident(x, c)
            lab = f"{ns}:{nm}" if nm else k
            if not nm:
                lab += "#" + str(sum(1 for z in names if z.startswith(k + "#")))
            names.append(lab)
        d["#children"] = tuple(names)
        out[path] = d
        for c, lab in zip(kids, names):
            go(c, path + "/" + lab)
    go(root, "")
    return out


def differences(a, b, ignore=()):
    """(path, field, value in a, value in b) where the dumps differ."""
    r = []
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            r.append((p, "#present", p in a, p in b))
            continue
        for f in sorted(set(a[p]) | set(b[p])):
            if f not in ignore and a[p].get(f) != b[p].get(f):
                r.append((p, f, a[p].get(f), b[p].get(f)))
    return r
