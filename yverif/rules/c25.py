"""C25: no result depends on the order in which a set happens to be iterated.

The interpreter gives sets a chosen iteration order.  Data models are compiled
and instances processed under several orders; everything a user can see - order
of schema nodes, tree diagram, digest, the error reported, output, paths - has
to be the same under all of them."""
import itertools
import hashlib
import json
import re
from .common import *
from ..world import leaf as sleaf, ModelRejected
from ..interp import Interp
from .c11 import L
from .c19 import contexts, lazily, digest_value
from .c28 import plain, attempt_plain
from .schema import dump
from .xp import parse
from .c12 import doc
from . import c21, c31, scopes



def orders(x):
    return (0, 1, 3) if x.check.tier == "quick" else (0, 1, 2, 3)


T = lambda n, *s: S("type", n, *s)
U = lambda c, *s: S("container", c, *s)
IMP = lambda n, *s: S("import", n, S("prefix", n), *s)


def element(x, e):
    e = x.I.force(e)
    a = x.I.force(e.fields["attrib"])
    return [plain(x, e.fields["tag"]), plain(x, e.fields["text"]), [[plain(x, k), plain(x, v)] for k, v in a.entries], [element(x, k) for k in e.payload.items]]


def msg(x, r):
    """Result of attempt_plain with the text of the exception."""
    if r[0] == "ok":
        return r
    t = x.attempt(lambda e=x.last.exc: x.I.call(Ext("builtins.str"), [e]))
    t = plain(x, t[1]) if t[0] == "ok" else t[1]
    return ("raise", r[1], t if isinstance(t, str) else "")


def dumps(v):
    return re.sub(r"#\d+", "#", json.dumps(v, default=repr))


def ask(x, fn):
    return dumps(msg(x, attempt_plain(x, fn)))


def sha1(I, a, kw):
    h = hashlib.sha1(a[0].val).hexdigest()
    return Obj(Ext("hashlib.sha1"), "hash", {"hexdigest": Native(lambda I, a, kw: K(h), "hexdigest")})


def schema_view(x, mods, subs, lib):
    """(scene or None, everything visible about the compiled model)."""
    x.I.extstub["hashlib.sha1"] = sha1
    w = World(x.p, mods, lib, subs)
    try:
        w.prepare()
    except ModelRejected as e:
        return None, {"outcome": f"{getattr(e.exc.cls, 'name', '?')}: {e}"}
    sc = w.scene(x.I)
    v = {}
    root = x.I.force(x.attr(sc.dm, "schema"))
    sd = x.attr(sc.dm, "schema_data")
    for p, d in dump(x, root).items():
        v["node " + (p or "/")] = repr(sorted(d.items()))
    v["nodes"] = repr(list(dump(x, root)))
    v["tree"] = plain(x, x.call(sc.dm, "ascii_tree", K(False)))
    v["digest"] = json.dumps(digest_value(x, sc))
    v["module set id"] = ask(x, lambda: plain(x, x.call(sc.dm, "module_set_id")))
    v["modules"] = repr([plain(x, k) for k in seq(x.I, x.I.call(Ext("builtins.list"), [x.attr(sd, "modules")]))])
    v["annotations"] = repr([plain(x, k) for k in seq(x.I, x.I.call(Ext("builtins.list"), [x.attr(root, "annotations")]))])
    return sc, v


class Order:
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        Interp.setorder = self.k

    def __exit__(self, *a):
        Interp.setorder = 0


def same_for_all(x, what, construct, views):
    """One obligation for each visible thing."""
    for k in range(1, len(views)):
        a, b = views[0], views[k]
        for f in list(dict.fromkeys(list(a) + list(b))):
            if a.get(f) == b.get(f):
                x.expect(True, "order-independent", construct(f), "")
                continue
            x.expect(False, "order-independent", construct(f), f"{what}: {f} depends on the iteration order of a set: {cut(a.get(f), b.get(f))} or {cut(b.get(f), a.get(f))}".replace('"', "'").replace("\n", " | "))


def cut(s, o):
    s, o = str(s), str(o)
    i = next((i for i, (c, d) in enumerate(zip(s, o)) if c != d), min(len(s), len(o)))
    return ("..." if i > 30 else "") + s[max(0, i - 30):i + 70]


def construct_of(f):
    return {"tree": "SchemaNode._ascii_tree", "digest": "SchemaNode._node_digest", "module set id": "DataModel.module_set_id", "outcome": "DataModel", "annotations": "SchemaTreeNode"}.get(f.split("/")[0].strip(), "SchemaData._process_imports")


def compile_all(x, what, mods, subs=(), lib=None):
    views = []
    for k in orders(x):
        with Order(k):
            views.append(schema_view(x, mods, subs, lib)[1])
    same_for_all(x, what, construct_of, views)


def library(mods, subs=(), features=None, imports=()):
    lib = {}
    for m in mods:
        e = lib[m[1]] = {}
        if features and m[1] in features:
            e["feature"] = list(features[m[1]])
        if m[1] in imports:
            e["conformance-type"] = "import"
        own = [s[1] for s in subs if next(t[1] for t in s[2] if t[0] == "belongs-to") == m[1]] if subs else []
        if own:
            e["submodule"] = [{"name": n, "revision": "2020-01-01"} for n in own]
    return lib


# ---- models ----------------------------------------------------------------
def graphs():
    """Modules that augment one another, in every import graph on three modules
    above a common base; submodules; import-only modules; cycles."""
    out = {}
    edges = [(1, 0), (2, 0), (2, 1)]
    base = module("b", U("c", sleaf("b0")), S("identity", "id"), S("feature", "f"), S("feature", "f2"), S("choice", "ch", sleaf("bc")), S("rpc", "r"))
    for g in range(8):
        es = [e for k, e in enumerate(edges) if g >> k & 1]
        ms = [base]
        for i in range(3):
            n = "xyz"[i]
            deps = [j for a, j in es if a == i]
            ms.append(module(n, IMP("b"), *[IMP("xyz"[j]) for j in deps], S("identity", "i" + n, S("base", "b:id")), S("augment", "/b:c", sleaf("l" + n), U("k" + n)),
                             *[S("augment", f"/b:c/{'xyz'[j]}:k{'xyz'[j]}", sleaf(f"in{n}")) for j in deps], S("augment", "/b:ch", sleaf("ch" + n)), S("augment", "/b:r/b:input", sleaf("p" + n)), U("top" + n), S("notification", "nt" + n)))
        for nm, order in (("", ms), ("-reversed", ms[::-1]), ("-mixed", ms[2:] + ms[:2])):
            out[f"graph{g}{nm}"] = (order, [], library(order))
    sub = lambda n, *b: S("submodule", n, S("belongs-to", "m", S("prefix", "m")), S("revision", "2020-01-01"), *b)
    subs = [sub(f"s{i}", sleaf(f"s{i}l"), S("augment", "/m:c", sleaf(f"s{i}a")), S("identity", f"s{i}i", S("base", "m:id"))) for i in (3, 1, 4, 2)]
    ms = [module("m", *[S("include", s[1]) for s in subs], U("c"), S("identity", "id"), sleaf("ir", T("identityref", S("base", "id"))), S("choice", "ch"))]
    out["submodules"] = (ms, subs, library(ms, subs))
    out["submodules-reversed"] = (ms, subs[::-1], library(ms, subs[::-1]))
    ms = [module("m", IMP("a"), IMP("b"), IMP("c"), U("t", S("uses", "a:g"), S("uses", "b:g"), S("uses", "c:g")))] + [module(n, IMP("z"), S("grouping", "g", sleaf(n)), sleaf("own" + n)) for n in "abc"] + [module("z", sleaf("z"))]
    for imp in ((), ("a",), ("a", "b"), ("z",), ("a", "b", "c", "z")):
        out["import-only-" + "".join(imp)] = (ms, [], library(ms, (), None, imp))
    cyc = [module("a", IMP("b"), sleaf("a")), module("b", IMP("c"), sleaf("b")), module("c", IMP("a"), sleaf("c")), module("d", sleaf("d"))]
    out["cycle"] = (cyc, [], library(cyc))
    feats = module("m", *[S("feature", f"f{i}", *([S("if-feature", f"f{i - 1}")] if i else [])) for i in range(4)], *[sleaf(f"l{i}", "string", S("if-feature", f"f{i}")) for i in range(4)], sleaf("un", "string", S("if-feature", "f0 and (f2 or not f3)")))
    for fs in ((), ("f0",), ("f1", "f0"), ("f3", "f1"), ("f2", "f3"), ("f0", "f1", "f2", "f3")):
        out["features-" + ("".join(fs) or "none")] = ([feats], [], library([feats], (), {"m": fs}))
    an = lambda n: S("annotation", n, T("string"), pref="md")
    ms = [module("ietf-yang-metadata", prefix="md")] + [module(n, S("import", "ietf-yang-metadata", S("prefix", "md")), an("a" + n), an("b" + n), sleaf(n)) for n in "abc"]
    out["annotations"] = (ms, [], library(ms))
    # restricted enumerations and bits, several bases, unions, keys, unique, leafrefs, defaults
    en = lambda kw, *ns: [S(kw, n) for n in ns]
    ty = module("m", *[S("identity", n, *[S("base", b) for b in bs]) for n, bs in (("r", ""), ("q", ""), ("a", "rq"), ("c", "r"), ("b", "rq"), ("d", "qr"))], S("typedef", "e", T("enumeration", *en("enum", "p", "q", "r", "s"))), S("typedef", "bt", T("bits", *en("bit", "p", "q", "r", "s"))),
                sleaf("e1", T("e", *en("enum", "s", "q", "p"))), sleaf("b1", T("bt", *en("bit", "r", "p", "s"))), sleaf("e0", "e"), sleaf("b0", "bt"), sleaf("i1", T("identityref", S("base", "r"), S("base", "q"))), sleaf("i2", T("identityref", S("base", "q"))), sleaf("u", T("union", T("e"), T("identityref", S("base", "r")))),
                S("leaf-list", "ll", T("bt"), S("default", "p q"), S("default", "s")), S("list", "l", S("key", "k2 k1"), S("unique", "x y"), S("unique", "y"), sleaf("k1"), sleaf("k2"), sleaf("x"), sleaf("y"), sleaf("man", "string", S("mandatory", "true"))),
                U("man", sleaf("m1", "string", S("mandatory", "true")), S("choice", "mc", S("mandatory", "true"), sleaf("ca"), sleaf("cb"), sleaf("cc")), S("list", "ml", S("key", "k"), S("min-elements", "1"), sleaf("k")), U("mi", sleaf("m2", "string", S("mandatory", "true"))), U("ms", S("config", "false"), sleaf("m3", "string", S("mandatory", "true")))))
    out["types"] = ([ty], [], library([ty]))
    return out


def models(ck, good):
    def add(name, mods, subs, lib):
        def t(x):
            compile_all(x, name, mods, subs, lib)
        lazily(ck, "model/" + name, t, good)
    for name, (mods, subs, lib) in graphs().items():
        add(name, mods, subs, lib)
    for name, (mods, subs, imports) in contexts().items():
        if ck.tier != "quick" or name.split("-")[0] in ("submodule", "augment", "operations"):
            add("placement-" + name, mods, subs, library(mods, subs, None, imports))
    for name, (mods, subs) in scopes.models().items():
        if ck.tier != "quick" or name in ("deviation", "augment", "submodule-far", "scoped"):
            ms = mods + scopes.base()
            add("scopes-" + name, ms, subs, library(ms, subs, scopes.FEATURES))
    for place in c21.PLACES if ck.tier != "quick" else ("spread", "smsm") :
        if place in c21.PLACES:
            mods, sub = c21.texts(place, "mixed", range(0, 64, 9), [sleaf(f"l{g}", T("identityref", S("base", ("own:" if c21.MODULE[c21.PLACES[place][0]] == "m" else "p" + c21.PLACES[place][0] + ":") + c21.name(g, 0)))) for g in range(0, 64, 9)])
            add("identities-" + place, mods, [sub], library(mods, [sub]))
    for what, mods, subs, lib, cls in c31.broken():
        if ck.tier != "quick" or len(what) % 3 == 0:
            add("broken-" + what.replace(" ", "-"), mods, subs, lib)


# ---- instances -------------------------------------------------------------
def data_mods():
    e = lambda kw, *ns: [S(kw, n) for n in ns]
    m = module("m", IMP("ietf-yang-metadata"), S("annotation", "an", T("string"), pref="ietf-yang-metadata"), S("annotation", "ao", T("uint8"), pref="ietf-yang-metadata"),
               S("identity", "base"), *[S("identity", n, S("base", "base")) for n in ("d1", "d2", "d3")], S("feature", "f"),
               U("c", sleaf("a"), sleaf("b", "uint8"), sleaf("d1", "string", S("default", "x")), sleaf("d2", "string", S("default", "y")), sleaf("d3", "string", S("default", "z")),
                 sleaf("bits", T("bits", *e("bit", "p", "q", "r"))), sleaf("en", T("enumeration", *e("enum", "p", "q", "r"))), sleaf("id", T("identityref", S("base", "base"))), sleaf("ii", T("instance-identifier")),
                 S("leaf-list", "ll", T("string")), S("leaf-list", "ln", T("uint8"), S("max-elements", "3")), S("leaf-list", "ld", T("string"), S("default", "one"), S("default", "two"), S("default", "three")),
                 U("i", sleaf("x", "string", S("default", "dx")), sleaf("y", "string", S("default", "dy")), U("j", sleaf("z", "string", S("default", "dz")))),
                 S("choice", "ch", S("default", "k1"), S("case", "k1", sleaf("k1a", "string", S("default", "q")), sleaf("k1b", "string", S("default", "r"))), S("case", "k2", sleaf("k2a"), sleaf("k2b", "string", S("mandatory", "true")))),
                 sleaf("lr", T("leafref", S("path", "../ll")))),
               U("man", S("presence", "p"), sleaf("m1", "string", S("mandatory", "true")), sleaf("m2", "string", S("mandatory", "true")), S("choice", "mc", S("mandatory", "true"), sleaf("ca"), sleaf("cb"), S("case", "cc", sleaf("cc1"), sleaf("cc2"))), S("leaf-list", "ml", T("string"), S("min-elements", "1"))),
               S("list", "l", S("key", "k j"), S("unique", "u v"), S("unique", "w/q"), sleaf("k"), sleaf("j", "uint8"), sleaf("u"), sleaf("v"), U("w", sleaf("q")), S("must", "u != 'bad'"), S("must", "v != 'bad'", S("error-message", "no"))),
               S("list", "kl", S("config", "false"), sleaf("s"), sleaf("t")),
               S("rpc", "op", S("input", None, sleaf("i1"), sleaf("i2", "string", S("default", "v")))), S("notification", "nt", sleaf("n1"), sleaf("n2", "string", S("default", "v"))))
    o = module("o", IMP("m"), S("identity", "d1", S("base", "m:base")), S("augment", "/m:c", sleaf("a"), sleaf("od", "string", S("default", "w")), S("leaf-list", "ll", T("string"))), S("augment", "/m:l", sleaf("a")), S("augment", "/m:man", S("when", "m:m1"), sleaf("om", "string")), U("top", sleaf("t", "string", S("default", "tt"))))
    return [m, o, module("ietf-yang-metadata")]


DOCS = [
    {}, {"m:c": {}}, {"m:c": {"b": 5, "a": "v", "o:a": "w", "bits": "r p", "en": "q", "id": "d2"}}, {"m:c": {"o:ll": ["y", "x", "z"], "ll": ["c", "a", "b"], "ln": [3, 1, 2], "id": "o:d1"}}, {"m:c": {"i": {"y": "1"}, "k1b": "s"}}, {"m:c": {"k2b": "t", "k2a": "u", "lr": "x"}},
    {"m:c": {"k2a": "u"}}, {"m:c": {"k2a": "u", "k1a": "s"}}, {"m:c": {"ll": ["a", "b"], "lr": "a", "@a": {}}}, {"m:c": {"@": {"m:an": "x", "m:ao": 5}, "a": "v", "@a": {"m:ao": 1, "m:an": "w"}, "ll": ["p", "q", "r"], "@ll": [{"m:an": "1"}, None, {"m:ao": 3}]}}, {"m:c": {"a": "v", "@a": {"m:zz": 1, "m:yy": 2}}}, {"m:c": {"a": "v", "@a": {"m:ao": "no", "m:an": 7}}},
    {"m:c": {"ll": ["a", "a", "b", "b"], "ln": [1, 2, 3, 4]}}, {"m:c": {"nix": 1, "nox": 2}}, {"m:c": {"bits": "p s t", "en": "z", "b": 700}}, {"m:c": {"lr": "q", "ll": ["a"]}}, {"m:c": {"ii": "/m:c/a", "a": "v"}}, {"m:c": {"ii": "/m:l[k='a'][j='1']"}},
    {"m:man": {}}, {"m:man": {"m1": "a"}}, {"m:man": {"m1": "a", "m2": "b"}}, {"m:man": {"m1": "a", "m2": "b", "ml": ["x"]}}, {"m:man": {"m1": "a", "m2": "b", "ml": ["x"], "ca": "1", "cb": "2"}}, {"m:man": {"m1": "a", "m2": "b", "ml": ["x"], "cc1": "1", "o:om": "q"}}, {"m:man": {"m2": "a", "o:om": "q", "ml": ["x"], "ca": "1"}},
    {"m:l": [{"k": "a", "j": 1, "u": "1", "v": "2"}, {"j": 2, "k": "b", "v": "2", "u": "1"}]}, {"m:l": [{"k": "a", "j": 1}, {"k": "a", "j": 1}]}, {"m:l": [{"k": "a"}]}, {"m:l": [{"j": 1, "u": "bad", "v": "bad", "k": "z"}, {"k": "b", "j": 2, "u": "1", "w": {"q": "7"}, "o:a": "s"}, {"k": "c", "j": 2, "v": "1", "w": {"q": "7"}}]},
    {"m:kl": [{"s": "1"}, {"t": "2", "s": "1"}, {"s": "1"}]}, {"o:top": {}, "m:kl": [], "m:c": {"a": "1"}}, {"m:op": {"input": {"i1": "x"}}}, {"m:nt": {"n1": "y"}},
]
PARTS = 16
MERGES = [({"m:c": {"ll": ["a", "b"], "ln": [1]}}, {"m:c": {"ll": ["d", "b", "c", "a", "e"], "ln": [2, 1, 3], "o:ll": ["z", "y"]}}), ({"m:l": [{"k": "a", "j": 1, "u": "1"}, {"k": "b", "j": 1}]}, {"m:l": [{"k": "c", "j": 1}, {"k": "b", "j": 1, "v": "2"}, {"k": "a", "j": 2}]}),
          ({"m:c": {"a": "1", "b": 2}}, {"m:c": {"i": {"x": "1"}, "b": 3, "en": "p", "k2b": "q"}}), ({"m:kl": [{"s": "1"}]}, {"m:kl": [{"s": "1"}, {"t": "2"}]}), ({}, {"o:top": {"t": "1"}, "m:c": {"a": "2"}})]
EXPRS = ["//*", "/c/* | /l/* | /top", "/l/k | /c/ll | /c/a", "c/ll | c/ln | //a", "//k/following::*", "//*[. = 'a']", "/c/descendant-or-self::*/..", "string(//k | //a | //ll)", "count(//a | //k | //*)", "/l/u/preceding::* | /l/v/ancestor::*", "c/id[derived-from(., 'm:base')]", "c/bits[bit-is-set(., 'p')] | c/en", "concat(/l/k, /c/ll)", "sum(/c/ln | /l/j)", "deref(/c/lr) | /c/ll", "name(/c/ll | /c/a)"]


def instance_view(x, sc, part):
    """Everything visible about processing the documents."""
    v = {}
    dm = sc.dm
    E = lambda n, c="ContentType": x.I.getattr_(x.p.cls(c), n)
    raw = lambda i: plain(x, x.call(i, "raw_value"))

    def walk(i, f, out, depth=0):
        """Depth-first over the entries and members of an instance."""
        out.append(f(i))
        val = x.I.force(x.attr(i, "value"))
        pay = val.payload if isinstance(val, Obj) and val.cls.name in ("ArrayValue", "ObjectValue") else None
        if isinstance(pay, Dct):
            for m in [plain(x, k) for k in x.I.iterate(i)]:
                walk(x.call(i, "_member", K(m)), f, out)
        elif isinstance(pay, Lst):
            for k in range(len(pay.items)):
                walk(x.call(i, "_entry", K(k)), f, out)
        return out
    for di, d in enumerate(DOCS):
        if di % PARTS != part:
            continue
        n = f" of {d}"
        r = attempt_plain(x, lambda: x.call(dm, "from_raw", L(d)))
        v["decoding" + n] = r[0] if r[0] == "ok" else dumps(msg(x, r))
        xr = attempt_plain(x, lambda: x.call(dm, "from_xml", doc({k: e for k, e in d.items()}).build(x.I))) if "@" not in repr(d) else None
        if xr:
            v["XML decoding" + n] = ask(x, lambda: raw(xr[1])) if xr[0] == "ok" else dumps(msg(x, xr))
        if r[0] != "ok":
            continue
        i = r[1]
        v["output" + n] = ask(x, lambda: raw(i))
        v["XML output" + n] = ask(x, lambda: element(x, x.call(i, "to_xml")))
        for s in ("syntax", "semantics", "all"):
            for c in ("all", "config"):
                v[f"validation ({s}, {c})" + n] = ask(x, lambda: plain(x, x.call(i, "validate", E(s, "ValidationScope"), E(c))))
        for c in ("all", "config"):
            full = attempt_plain(x, lambda: x.call(i, "add_defaults", E(c)))
            v[f"defaults ({c})" + n] = ask(x, lambda: raw(full[1])) if full[0] == "ok" else dumps(msg(x, full))
        v["XML output with defaults" + n] = ask(x, lambda: element(x, x.call(x.call(i, "add_defaults"), "to_xml")))
        v["paths" + n] = ask(x, lambda: walk(i, lambda k: [plain(x, x.call(k, "json_pointer")), plain(x, x.I.call(Ext("builtins.str"), [x.call(k, "instance_route")])), plain(x, x.I.call(Ext("builtins.str"), [k]))], []))
        kids = lambda j: [plain(x, x.call(c, "json_pointer")) for c in seq(x.I, x.call(j, "_children"))]
        if not ("m:op" in d or "m:nt" in d):
            v["children" + n] = ask(x, lambda: walk(i, kids, []))
        if di in (2, 3, 8, 15, 25, 28):
            for e in EXPRS:
                def ev(e=e):
                    sd = x.attr(dm, "schema_data")
                    ctx = x.I.instantiate(x.p.cls("SchemaContext"), [sd, K("m"), Lst("tuple", [K("m"), K("2020-01-01")])], {})
                    g = x.I.force(x.call(parse(x, e, ctx)[0], "evaluate", i))
                    if isinstance(g, K):
                        return g.val
                    return [plain(x, x.call(k, "json_pointer")) for k in seq(x.I, g)]
                v[f"XPath {e}" + n] = ask(x, ev)
    if part != 0:
        return v
    for a, b in MERGES:
        r = lambda d: x.call(dm, "from_raw", L(d))
        v[f"merge of {a} and {b}"] = ask(x, lambda: raw(x.call(r(a), "merge", x.attr(r(b), "value"))))
        v[f"update of {a} to {b}"] = ask(x, lambda: raw(x.call(r(a), "update", x.attr(r(b), "value"))))
    for t in ("/m:l[k='a'][j='1']/w/q", "/m:l[j='1'][k='a']", "/m:c/ll[.='x']", "/m:l[2]"):
        v["instance identifier " + t] = ask(x, lambda: plain(x, x.I.call(Ext("builtins.str"), [x.call(dm, "parse_instance_id", K(t))])))
        v["lookup of " + t] = ask(x, lambda: raw(x.call(x.call(dm, "from_raw", L(DOCS[25])), "goto", x.call(dm, "parse_instance_id", K(t)))))
    for t in ("/m:l=a,1/w", "/m:c/ll=x", "/o:top/t", "/m:c/o:a"):
        v["resource identifier " + t] = ask(x, lambda: plain(x, x.I.call(Ext("builtins.str"), [x.call(dm, "parse_resource_id", K(t))])))
    return v


def view_construct(f):
    return {"decoding": "InternalNode.from_raw", "XML": "InternalNode._process_xmlobj_child", "output": "InstanceNode.raw_value", "validation": "SchemaNode._validate", "defaults": "InternalNode._add_defaults", "paths": "InstanceNode.instance_route", "children": "InstanceNode._children", "XPath": "Expr.evaluate", "merge": "InstanceNode._merge_list", "update": "InstanceNode.update"}.get(f.split()[0], "InstanceRoute")


def instances(ck, good):
    mods = data_mods()
    lib = library(mods, (), {"m": ["f"]})

    for part in range(PARTS):
        def t(x, part=part):
            views = []
            for k in orders(x):
                with Order(k):
                    w = World(x.p, mods, lib, [])
                    w.prepare()
                    views.append(instance_view(x, w.scene(x.I), part))
            same_for_all(x, "instances", view_construct, views)
        lazily(ck, f"instances/{part}", t, good)


def run(ck):
    ck.floor = 17000
    good = world(ck, "c25", lambda p: World(p, [module("m", sleaf("t"))]))
    instances(ck, good)
    models(ck, good)
