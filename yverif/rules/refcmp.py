"""Comparison of the compiled (abstract) schema with the reference compilation."""
from .common import *
from .c28 import plain
from .schema import is_node
from ..refschema import Ref


def enumval(x, v, what="value"):
    return plain(x, x.I.getattr_(x.I.force(v), what))


def text(x, e):
    return plain(x, x.I.str_(x.I.force(e)))


def flat(x, n, groups=()):
    """Named children with the anonymous groups they came through."""
    for c in x.I.force(x.attr(n, "children")).items:
        c = x.I.force(c)
        if plain(x, x.attr(c, "name")) is None:
            yield from flat(x, c, groups + (c,))
        else:
            yield c, groups


def facts(x, n, groups, want):
    f = {"class": n.cls.name, "name": plain(x, x.attr(n, "name")), "ns": plain(x, x.attr(n, "ns"))}
    has = lambda a: a in want
    if has("config"):
        f["config"] = x.I.truth(x.attr(n, "config"))
    if has("status"):
        f["status"] = enumval(x, x.attr(n, "status"))
    if has("description"):
        f["description"] = plain(x, x.attr(n, "description"))
    if has("when"):
        ws = []
        for g in groups:
            w = x.I.force(x.attr(g, "when"))
            if not (isinstance(w, K) and w.val is None):
                ws.append(text(x, w))
        own = x.I.force(x.attr(n, "when"))
        f["when"] = sorted(ws) + ([] if isinstance(own, K) and own.val is None else [text(x, own)])
    if has("must"):
        f["must"] = [(text(x, x.attr(m, "expression")), plain(x, x.attr(m, "error_tag")), plain(x, x.attr(m, "error_message"))) for m in seq(x.I, x.attr(n, "must"))]
    for a in ("mandatory", "presence", "user_ordered"):
        if has(a):
            f[a] = x.I.truth(x.attr(n, a))
    for a in ("min_elements", "max_elements", "units", "keys", "default_case"):
        if has(a):
            f[a] = plain(x, x.attr(n, a))
    if has("iname"):
        f["iname"] = plain(x, x.call(n, "iname"))
    if has("default_deny"):
        f["default_deny"] = enumval(x, x.attr(n, "default_deny"), "name")
    if has("unique"):
        f["unique"] = [[text(x, e) for e in seq(x.I, u)] for u in seq(x.I, x.attr(n, "unique"))]
    if has("type"):
        t = x.attr(n, "type")
        f["type"] = plain(x, x.call(t, "yang_type"))
        if has("path"):
            f["path"] = text(x, x.attr(t, "path"))
        if has("bases"):
            f["bases"] = [plain(x, b) for b in seq(x.I, x.attr(t, "bases"))]
        f["typename"] = plain(x, x.attr(t, "name"))
        d = x.I.force(x.attr(n, "default"))
        if isinstance(d, K) and d.val is None:
            f["default"] = None
        elif n.cls.name == "LeafListNode":
            f["default"] = [plain(x, x.call(t, "to_raw", e)) for e in seq(x.I, d)]
        else:
            f["default"] = plain(x, x.call(t, "to_raw", d))
    return f


def compare(x, root, ref, rule="compiled", label="", skip=()):
    """Every node and property of the reference is in the compiled schema and
    nothing else is."""
    def go(n, r):
        got = {}
        for c, gs in flat(x, n):
            k = (plain(x, x.attr(c, "name")), plain(x, x.attr(c, "ns")))
            x.expect(k not in got, rule + "-unique", c.cls.name, f"{label}{c_path(r, k)} is compiled twice")
            got[k] = (c, gs)
        want = {(k.name, k.ns): k for k in r.kids}
        for k in sorted(set(got) | set(want)):
            if k in want:
                x.expect(k in got, rule + "-present", ref.kind(want[k]), f"{label}{want[k].kw} {c_path(r, k)} is missing from the compiled schema")
            else:
                x.expect(False, rule + "-present", got[k][0].cls.name, f"{label}{c_path(r, k)} is in the compiled schema although it should not be")
        for k in sorted(set(got) & set(want)):
            c, gs = got[k]
            w = ref.facts(want[k])
            for s in skip:
                w.pop(s, None)
            try:
                h = facts(x, c, gs, w)
            except AbsRaise as e:
                x.expect(False, rule + "-raises", ref.kind(want[k]), f"{label}reading {c_path(r, k)} raises {getattr(e.exc.cls, 'name', '?')}", fmt_loc(e.loc))
                continue
            for a in sorted(w):
                x.expect(h.get(a) == w[a], rule + "-" + a, f"{CONS.get(w['class'], w['class'])}", f"{label}{want[k].kw} {c_path(r, k)}: {a} is {h.get(a)!r}, expected {w[a]!r}".replace('"', "'"))
            if want[k].kw not in ("leaf", "leaf-list", "anydata", "anyxml"):
                go(c, want[k])
            n_[0] += 1
    n_ = [0]
    go(root, ref.root)
    return n_[0]


CONS = {}


def c_path(r, k):
    return (r.path().rstrip("/") + f"/{k[1]}:{k[0]}")


def kind(self, n):
    return {"ContainerNode": "ContainerNode"}.get(n.kw, n.kw)


Ref.kind = kind


def check(x, mods, subs=(), features=None, library=None, keep=(), imports=(), rule="compiled", label="", skip=()):
    """Compile abstractly and by reference, compare."""
    features = features or {}
    lib = {}
    for m in mods:
        e = {}
        if m[1] in features:
            e["feature"] = sorted(features[m[1]])
        if m[1] in imports:
            e["conformance-type"] = "import"
        own = [s for s in subs if next(z[1] for z in s[2] if z[0] == "belongs-to") == m[1]]
        if own:
            e["submodule"] = [{"name": s[1], "revision": next(z[1] for z in s[2] if z[0] == "revision")} for s in own]
        if m[1] in keep:
            e["yangson-yl:keep-obsolete"] = True
        lib[m[1]] = e
    w = World(x.p, list(mods), lib, list(subs))
    w.prepare()
    sc = w.scene(x.I)
    ref = Ref(mods, subs, features, keep, [m[1] for m in mods if m[1] not in imports])
    n = compare(x, x.I.force(x.attr(sc.dm, "schema")), ref, rule, label, skip)
    return sc, ref, n
