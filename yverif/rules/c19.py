"""C19: every statement that shapes data is honoured.

Modules that place every data-definition statement with every substatement in
every context are compiled abstractly by the repository's code and, separately,
by the reference compiler (`refschema`, statement rewriting after RFC 7950); the
two schemas must have the same nodes with the same properties."""
import itertools
import json
from .common import *
from .refcmp import check, plain
from ..world import leaf as sleaf, ModelRejected
from .c18 import outcome, short
from ..refschema import digest, tree, enums
from .schema import describe

T = lambda n, *s: S("type", n, *s)


def variants(state, inner=""):
    """Data definitions: every kind with every property, singly and combined.
    `state`: are config statements allowed here?"""
    cfg = [(), (S("config", "false"),), (S("config", "true"),)] if state else [()]
    common = [(), (S("status", "deprecated"),), (S("status", "obsolete"),), (S("status", "current"),), (S("description", "some text"),), (S("when", "../w"),), (S("when", "w/v"), S("description", "d")),
              (S("default-deny-all", None, pref="nacm"),), (S("default-deny-write", None, pref="nacm"),), (S("reference", "r"), S("frobnicate", "z", pref="ext"))]
    must = [(S("must", "a1"),), (S("must", "a1"), S("must", "../b1", S("error-app-tag", "tg"), S("error-message", "msg"))), (S("must", "a1/b", S("error-message", "only")),), (S("must", "c1", S("error-app-tag", "only"), S("description", "x")),)]
    mand = [(S("mandatory", "true"),), (S("mandatory", "false"),)]
    out = []

    def put(kw, body, props):
        for pr in props:
            out.append((kw, body, pr))
    tl = (T("string"),)
    put("leaf", tl, common + must + mand + cfg[1:] + [(S("default", "dd"),), (S("units", "u"),), (S("units", "u"), S("default", "v"), S("when", "w"))])
    put("leaf", (T("uint8"),), [(S("default", "7"),), (S("mandatory", "false"), S("default", "8"))])
    put("leaf", (T("tt"),), [(), (S("default", "own"),), (S("units", "own"),), (S("mandatory", "true"),), (S("default", "own"), S("units", "own"))])
    put("leaf-list", tl, common + must + cfg[1:] + [(S("default", "dd"),), (S("default", "e1"), S("default", "e2")), (S("units", "u"),), (S("min-elements", "2"),), (S("max-elements", "3"),), (S("min-elements", "1"), S("max-elements", "1")),
                                                    (S("max-elements", "unbounded"),), (S("min-elements", "0"),), (S("ordered-by", "user"),), (S("ordered-by", "system"),)])
    put("leaf-list", (T("tt"),), [(), (S("default", "own"),), (S("min-elements", "1"),)])
    put("container", (sleaf("x1"),), common + must + cfg[1:] + [(S("presence", "p"),), (S("presence", ""),)])
    put("container", (sleaf("x1", "string", S("mandatory", "true")),), [(), (S("presence", "p"),), (S("config", "false"),) if state else (), (S("status", "deprecated"),)])
    put("container", (S("container", "x2", S("leaf-list", "x1", T("string"), S("min-elements", "1"))),), [(), (S("presence", "p"),)])
    put("container", (S("choice", "x2", S("mandatory", "true"), sleaf("x1"), sleaf("x3"), S("case", "x4", sleaf("x5", "string", S("mandatory", "true")))),), [()])
    put("container", (S("choice", "x2", S("default", "x4"), sleaf("x1"), S("case", "x4", sleaf("x5"), S("description", "ce"), S("status", "deprecated"))),), [()])
    put("list", (S("key", "k1"), sleaf("k1"), sleaf("x1"), S("container", "x2", sleaf("x3"))), common + must + cfg[1:] + [
        (S("min-elements", "2"),), (S("max-elements", "3"),), (S("max-elements", "unbounded"),), (S("ordered-by", "user"),), (S("ordered-by", "system"),), (S("unique", "x1"),), (S("unique", "x1 x2/x3"), S("unique", "x2/x3"))])
    put("list", (sleaf("k2", "uint8"), S("key", "k1 k2"), sleaf("k1")), [(), (S("config", "false"),) if state else ()])
    # any white space separates keys and parts of unique
    for sep in ("  ", "\n      ", "\t", " \r\n "):
        put("list", (S("key", f"k1{sep}k2"), sleaf("k2", "uint8"), sleaf("k1"), sleaf("x1"), S("container", "x2", sleaf("x3"))), [(), (S("unique", f"x1{sep}x2/x3"),)])
    put("list", (S("config", "false") if state else S("description", "d"), sleaf("x1")) if state else (S("key", "x1"), sleaf("x1")), [()])
    put("list", (S("key", "k1"), S("uses", "kg"), sleaf("x1")), [()])
    put("choice", (sleaf("x1" + inner), sleaf("x2" + inner)), [c for c in common if not any(s[3] for s in c)] + mand + cfg[1:])
    put("anydata", (), common + must + mand + cfg[1:])
    put("anyxml", (), common + must + mand + cfg[1:])
    res = []
    for i, (kw, body, pr) in enumerate(out):
        body = tuple(rename(s, f"q{i}") for s in body) if kw == "choice" else body
        # properties before, after and between the other substatements
        subs = pr + body if i % 3 == 0 else body + pr if i % 3 == 1 else body[:1] + pr + body[1:]
        res.append(S(kw, f"n{i}", *subs))
    return res


def rename(s, suffix):
    return (s[0], s[1] + suffix, s[2], s[3]) if s[0] == "leaf" else s


def preamble(ns="m"):
    return [S("import", "ietf-netconf-acm", S("prefix", "nacm")), S("import", "ext", S("prefix", "ext")),
            S("typedef", "tt", T("string"), S("default", "typed"), S("units", "typed")), S("grouping", "kg", sleaf("k1"), S("description", "not inherited"), S("status", "current"))]


EXTRA = [module("ietf-netconf-acm", prefix="nacm"), module("ext")]


def contexts():
    """name -> (modules, submodules, import-only modules) with the variants in place."""
    P = preamble
    V = lambda state=True, inner="": variants(state, inner)
    imp = lambda n, p=None: S("import", n, S("prefix", p or n))
    r = {}
    one = lambda *b: ([module("m", *P(), *b)] + EXTRA, [], [])
    r["top"] = one(*V())
    r["container"] = one(S("container", "c", *V()))
    r["state-container"] = one(S("container", "c", S("config", "false"), *V(False)))
    r["deprecated"] = one(S("container", "c", S("status", "deprecated"), *V()))
    r["obsolete"] = one(S("container", "c", S("status", "obsolete"), S("description", "outer"), *V()))
    r["presence"] = one(S("container", "c", S("presence", "p"), *V()))
    r["list"] = one(S("list", "l", S("key", "k"), sleaf("k"), *V()))
    r["case"] = one(S("choice", "ch", S("case", "ca", *V()), sleaf("other")))
    r["shorthand"] = one(S("choice", "ch", *V()))
    r["top-case"] = one(S("container", "c", S("choice", "ch", S("config", "false"), S("case", "ca", S("choice", "in", S("case", "cb", *V(False)))))))
    r["grouping"] = one(S("grouping", "g", S("description", "gd"), S("status", "deprecated"), *V()), S("container", "c", S("uses", "g")), S("list", "l", S("key", "k"), sleaf("k"), S("uses", "g", S("when", "../w"))))
    r["grouping-twice"] = one(S("grouping", "g", S("uses", "h")), S("grouping", "h", *V()), S("uses", "g"), S("container", "c", S("config", "false"), S("uses", "h")))
    r["grouping-local"] = one(S("container", "o", S("grouping", "g", *V()), S("container", "c", S("uses", "g")), S("uses", "g", S("description", "not inherited"))))
    r["grouping-import"] = ([module("m", imp("g", "zz"), *P(), S("container", "c", S("uses", "zz:g")), S("uses", "zz:g", S("when", "w"))), module("g", *P(), S("grouping", "g", *V()))] + EXTRA, [], [])
    r["grouping-import-only"] = (r["grouping-import"][0], [], ["g"])
    r["augment"] = one(S("container", "c", sleaf("z")), S("augment", "/m:c", *V()))
    r["augment-when"] = one(S("container", "c", S("description", "cd"), sleaf("z")), S("augment", "/m:c", S("when", "w"), S("description", "ad"), *V()))
    r["augment-status"] = one(S("container", "c", sleaf("z")), S("augment", "/m:c", S("status", "deprecated"), *V()), S("augment", "/m:c", S("status", "obsolete"), S("when", "w"), sleaf("zz")))
    r["augment-other"] = ([module("a", imp("m"), *P("a"), S("augment", "/m:c/m:l", *V())), module("m", *P(), S("container", "c", S("list", "l", S("key", "k"), sleaf("k"))))] + EXTRA, [], [])
    r["augment-choice"] = ([module("a", imp("m"), *P("a"), S("augment", "/m:c/m:ch", *V())), module("m", *P(), S("container", "c", S("choice", "ch", sleaf("z"))))] + EXTRA, [], [])
    r["augment-choice-when"] = ([module("a", imp("m"), *P("a"), S("augment", "/m:c/m:ch", S("when", "w"), *V())), module("m", *P(), S("container", "c", S("choice", "ch", sleaf("z"))))] + EXTRA, [], [])
    r["augment-case"] = one(S("choice", "ch", sleaf("z"), S("case", "y", sleaf("yy"))), S("augment", "/m:ch/m:z", *V()))
    r["augment-rpc"] = one(S("rpc", "r"), S("augment", "/m:r/m:input", *V(False)), S("rpc", "r2", S("output", None, sleaf("z"))), S("augment", "/m:r2/m:output", *V(False)))
    r["augment-notification"] = one(S("notification", "r"), S("augment", "/m:r", *V(False)))
    r["augment-uses"] = one(S("grouping", "g", S("container", "i", S("choice", "ch", sleaf("z")), sleaf("y"))), S("container", "c", S("uses", "g", S("augment", "i", *V()))), S("container", "d", S("uses", "g", S("augment", "i/ch", S("when", "w"), *V()))))
    r["augment-chain"] = one(S("augment", "/m:c/m:d/m:e", *V()), S("augment", "/m:c/m:d", S("container", "e")), S("augment", "/m:c", S("container", "d")), S("container", "c"))
    r["rpc"] = one(S("rpc", "r", S("description", "rd"), S("status", "deprecated"), S("default-deny-all", None, pref="nacm"), S("input", None, S("must", "a"), *V(False)), S("output", None, S("must", "b"), S("must", "c", S("error-message", "e")), *V(False))), S("rpc", "empty"))
    r["action"] = one(S("list", "l", S("key", "k"), sleaf("k"), S("action", "r", S("input", None, *V(False)))), S("container", "c", S("action", "r", S("output", None, *V(False))), S("action", "q", S("status", "deprecated"))))
    r["notification"] = one(S("notification", "n", S("description", "nd"), S("must", "a"), S("must", "b/c", S("error-app-tag", "t")), S("status", "obsolete"), S("default-deny-write", None, pref="nacm"), *V(False)), S("container", "c", S("notification", "n", *V(False))))
    ops = lambda *g: [S("action", "r", S("input", None, sleaf("i", "string", S("mandatory", "true")))), S("notification", "n", sleaf("i")), sleaf("z")]
    r["operations"] = one(S("grouping", "g", *ops()), S("container", "c", S("uses", "g")), S("container", "d", S("uses", "g", S("when", "z"))), S("container", "e"), S("augment", "/m:e", S("when", "w"), *ops()),
                          S("list", "l", S("key", "k"), sleaf("k"), S("choice", "ch", sleaf("i"), sleaf("n"), S("container", "r", sleaf("i")))), S("container", "f"), S("augment", "/m:f", S("status", "deprecated"), *ops()))
    sub = S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), *P(), S("container", "c", *V()), S("grouping", "g", *V()))
    r["submodule"] = ([module("m", S("include", "s"), S("import", "ext", S("prefix", "ext")), S("container", "d", S("uses", "g")), sleaf("z"))] + EXTRA, [sub], [])
    sub2 = S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), *P(), S("augment", "/mm:c/mm:ch", *V()))
    r["submodule-augment"] = ([module("m", S("include", "s"), S("import", "ext", S("prefix", "ext")), S("container", "c", S("choice", "ch", sleaf("z"))))] + EXTRA, [sub2], [])
    return r


def lazily(ck, name, t, world_):
    ck.scenario(name, t, world_, Config(steps=6 * 10 ** 7, rec=200, depth=600), max_paths=3)


def run_check(x, *a, **kw):
    try:
        return check(x, *a, **kw)
    except ModelRejected as e:
        x.expect(False, "valid-model-accepted", "DataModel", f"a valid module ({kw.get('label', '')}) is rejected: {e}", e.loc)


def output(x, sc, ref, label):
    """Schema digest and tree diagram tell the same as the schema."""
    got = strip(digest_value(x, sc))
    want = json.loads(json.dumps(digest(ref)))
    for p, a, b in jdiff(got, want):
        x.expect(False, "digest", "SchemaNode._node_digest", f"{label}schema digest has {a} instead of {b} at {p}".replace('"', "'"))
    for types in (True, False):
        g = plain(x, x.call(sc.dm, "ascii_tree", K(not types))).split("\n")
        w = tree(ref, types=types).split("\n")
        for a, b in itertools.zip_longest(g, w):
            if a != b:
                x.expect(False, "tree", "SchemaNode._tree_line", f"{label}tree diagram line is '{a}' instead of '{b}'")
                break
        else:
            x.expect(True, "tree", "SchemaNode._tree_line", "")


def digest_value(x, sc):
    """Python value of the digest before it is printed as JSON."""
    out = []
    old = x.I.extstub.get("json.dumps")
    x.I.extstub["json.dumps"] = lambda I, a, kw: (out.append(plain(x, a[0])), K("digest"))[1]
    try:
        x.call(sc.dm, "schema_digest")
    finally:
        x.I.extstub.pop("json.dumps") if old is None else x.I.extstub.__setitem__("json.dumps", old)
    return json.loads(json.dumps(out[0]))


def strip(d):
    """Without members of the root that the documentation does not define."""
    d.pop("description", None)
    d.pop("mandatory", None)
    return d


def jdiff(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if b.get(k) == "*":
                continue
            if k not in a or k not in b:
                yield p + "/" + k, "nothing" if k not in a else str(a[k])[:80], "nothing" if k not in b else str(b[k])[:80]
            else:
                yield from jdiff(a[k], b[k], p + "/" + k)
    elif a != b or type(a) is not type(b):
        yield p, a, b


def placement(ck, good):
    for name, (mods, subs, imports) in contexts().items():
        for keep in ((), ("m", "g")) if name in ("top", "grouping-import", "augment-status", "obsolete") else ((),):
            def t(x, mods=mods, subs=subs, imports=imports, name=name, keep=keep):
                r = run_check(x, mods, subs, imports=imports, keep=keep, label=name + ": ")
                if r:
                    output(x, r[0], r[1], name + ": ")
            lazily(ck, f"placement/{name}" + ("/keep" if keep else ""), t, good)


def E(*names, kw="enum", val="value"):
    return [S(kw, n, *([S(val, str(v))] if v is not None else [])) for n, v in names]


NUMBERINGS = [(("a", None), ("b", None)), (("a", 5), ("b", None)), (("a", None), ("b", 5), ("c", None)), (("a", 5), ("b", 3), ("c", None)), (("a", 7), ("b", 1), ("c", None), ("d", 2), ("e", None)), (("a", 0), ("b", None), ("c", 9), ("d", 8), ("e", None), ("f", None)),
              (("a", None), ("b", 1), ("c", None)), (("a", 1), ("b", 0))]


def numbering(ck, good):
    for kw, val, typ, attr in (("enum", "value", "enumeration", "enum"), ("bit", "position", "bits", "bit")):
        lists = NUMBERINGS + ([((("a", -5)), ("b", None)), (("a", -5), ("b", -9), ("c", None)), (("a", -1), ("b", None), ("c", None))] if kw == "enum" else [])

        def t(x, kw=kw, val=val, typ=typ, attr=attr, lists=lists):
            mods = [module("m", S("typedef", "base", T(typ, *E(*NUMBERINGS[4], kw=kw, val=val))), *[sleaf(f"l{i}", T(typ, *E(*l, kw=kw, val=val))) for i, l in enumerate(lists)],
                           sleaf("r1", T("base")), sleaf("r2", T("base", *E(("e", None), ("b", None), kw=kw, val=val))), sleaf("r3", T("base", *E(("c", 8), ("a", 7), kw=kw, val=val))))]
            r = run_check(x, mods, label="numbering: ")
            if not r:
                return
            sc, ref, _ = r
            output(x, sc, ref, "numbering: ")
            for n in ref.root.kids:
                want = enums(ref, ref.type(n.one("type"))[1], kw, val)
                got = plain(x, x.attr(x.attr(sc.node(n.name), "type"), attr))
                x.expect(got == want, "numbering", "EnumerationType" if kw == "enum" else "BitsType", f"{typ} leaf {n.name} ({lists[int(n.name[1:])] if n.name[0] == 'l' else 'restricted'}) has {got}, expected {want}".replace("'", ""))
        lazily(ck, "numbering/" + kw, t, good)


def types(ck, good):
    """Type names, restrictions and defaults, with typedef chains across modules."""
    imp = lambda n, p=None: S("import", n, S("prefix", p or n))
    D = lambda d: [S("default", d)]

    def t(x):
        o = module("o", S("identity", "b"), S("identity", "d", S("base", "b")), S("identity", "same", S("base", "b")), S("typedef", "id", T("identityref", S("base", "b")), *D("d")), S("typedef", "id0", T("identityref", S("base", "b"))),
                   S("typedef", "un", T("union", T("uint8"), T("identityref", S("base", "b"))), *D("same")), S("typedef", "s", T("string", S("length", "2..9"), S("pattern", "a.*")), *D("abz"), S("units", "o-units")),
                   S("typedef", "n", T("int16", S("range", "-5..5|10..20")), *D("3")), S("container", "oc", sleaf("ol", "uint16")), S("typedef", "lr", T("leafref", S("path", "/o:oc/o:ol")), *D("12")),
                   S("grouping", "g", sleaf("gi", "id"), sleaf("gj", "id0", *D("d")), sleaf("gr", T("leafref", S("path", "../gs"))), sleaf("gs", "s"), S("leaf-list", "gl", T("id0"), *D("d"), *D("same")), S("choice", "gc", *D("gc2"), sleaf("gc1"), sleaf("gc2"))))
        m = module("m", imp("o", "q"), S("identity", "e", S("base", "q:b")), S("identity", "same", S("base", "q:b")), S("identity", "b"),
                   S("typedef", "id2", T("q:id"), *D("e")), S("typedef", "id3", T("q:id")), S("typedef", "s2", T("q:s", S("length", "3..4"), S("pattern", ".*z"), S("pattern", "x.*", S("modifier", "invert-match")))), S("typedef", "s3", T("s2"), *D("azz"), S("units", "s3-units")), S("typedef", "n2", T("q:n", S("range", "1..3|11"))),
                   sleaf("i1", "q:id"), sleaf("i2", "q:id", *D("e")), sleaf("i3", "q:id", *D("q:d")), sleaf("i4", "q:id", *D("same")), sleaf("i5", "q:id", *D("m:same")), sleaf("i6", "id2"), sleaf("i7", "id3"), sleaf("i8", "id2", *D("q:same")), S("leaf-list", "i9", T("id3")),
                   S("leaf-list", "i10", T("q:id"), *D("same"), *D("q:same")), sleaf("u1", "q:un"), sleaf("u2", "q:un", *D("same")), sleaf("u3", "q:un", *D("q:d")), sleaf("u4", "q:un", *D("7")),
                   sleaf("s1", "q:s"), sleaf("s2", "s2"), sleaf("s3", "s3"), sleaf("s4", "s3", S("units", "own"), *D("abz")), S("leaf-list", "s5", T("s2", S("length", "3"))), sleaf("n1", "q:n"), sleaf("n2", "n2"), sleaf("n3", T("n2", S("range", "2")), *D("2")),
                   sleaf("r1", T("leafref", S("path", "/q:oc/q:ol")), *D("9")), sleaf("r2", T("leafref", S("path", "../r1"))), sleaf("r3", T("leafref", S("path", "/m:r2")), *D("8")), sleaf("r4", "q:lr"), sleaf("r5", T("leafref", S("path", "../i1")), *D("e")), sleaf("r6", "q:lr", *D("77")), S("leaf-list", "r7", T("leafref", S("path", "../s1")), *D("abq"), *D("abr")),
                   sleaf("x1", T("decimal64", S("fraction-digits", "3")), *D("1.5")), sleaf("x2", T("int64", S("range", "1..9")), *D("4")), sleaf("x3", "boolean", *D("true")), sleaf("x4", "boolean", *D("false")), sleaf("x5", T("binary", S("length", "1..2"))), sleaf("x6", "instance-identifier"), sleaf("x7", "empty"), sleaf("x8", T("union", T("int8"), T("boolean")), *D("true")),
                   sleaf("x9", T("bits", *E(("a", None), ("b", 4), kw="bit", val="position")), *D("a")), sleaf("x10", T("enumeration", *E(("one", None), ("two", None))), *D("two")), S("typedef", "iid", T("instance-identifier")), sleaf("x11", "iid"), sleaf("x12", T("decimal64", S("fraction-digits", "2"), S("range", "1.5..2.25"))), sleaf("x13", T("uint64", S("range", "5"))),
                   S("container", "c", S("uses", "q:g")), S("container", "d", S("config", "false"), S("uses", "q:g", S("refine", "gi", *D("e")), S("refine", "gj", *D("q:same")), S("refine", "gc", *D("gc1")), S("refine", "gs", *D("amz"), S("description", "z")))),
                   S("augment", "/q:oc", sleaf("a1", "q:id", *D("same")), S("leaf-list", "a2", T("id2"))))
        for kind in ([], ["o"]):
            r = run_check(x, [m, o] if not kind else [m, module("o2"), o], label="types: ")
            if r:
                output(x, r[0], r[1], "types: ")
    lazily(ck, "types", t, good)
    sub = S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), imp("o", "z"), S("typedef", "t", T("z:id"), *D("mm:e")), sleaf("sl", "z:id", *D("e")), sleaf("sm", "t"), S("grouping", "g", sleaf("sg", "t"), sleaf("sh", "z:id", *D("z:d"))))

    def t(x):
        o = module("o", S("identity", "b"), S("identity", "d", S("base", "b")), S("typedef", "id", T("identityref", S("base", "b")), *D("d")))
        # the prefix z means something else in the module itself
        m = module("m", S("include", "s"), imp("z2", "z"), imp("o", "o"), S("identity", "e", S("base", "o:b")), sleaf("l1", "t"), S("leaf-list", "l2", T("t")), S("container", "c", S("uses", "g")), sleaf("l3", "o:id", *D("e")))
        r = run_check(x, [m, o, module("z2", S("identity", "d"))], [sub], label="types in submodule: ")
        if r:
            output(x, r[0], r[1], "types in submodule: ")
    lazily(ck, "types/submodule", t, good)


def metadata(ck, good):
    """Annotations are known under their module with their type and description."""
    def t(x):
        md = module("ietf-yang-metadata", prefix="md")
        m = module("m", S("import", "ietf-yang-metadata", S("prefix", "yy")), S("typedef", "tt", T("uint8")), S("annotation", "a1", T("string"), S("description", "first"), pref="yy"), S("annotation", "a2", T("tt"), pref="yy"), sleaf("l"))
        o = module("o", S("import", "ietf-yang-metadata", S("prefix", "md")), S("annotation", "a1", T("boolean"), S("units", "u"), pref="md"), S("annotation", "a3", S("description", "last"), T("empty"), pref="md"))
        w = World(x.p, [m, o, md])
        w.prepare()
        sc = w.scene(x.I)
        got = {plain(x, k): (plain(x, x.call(x.attr(v, "type"), "yang_type")), plain(x, x.attr(v, "description"))) for k, v in x.I.force(x.attr(sc.schema, "annotations")).entries}
        want = {("a1", "m"): ("string", "first"), ("a2", "m"): ("uint8", None), ("a1", "o"): ("boolean", None), ("a3", "o"): ("empty", "last")}
        for k in sorted(set(got) | set(want)):
            x.expect(got.get(k) == want.get(k), "annotation", "SchemaTreeNode._annotation_stmt", f"annotation {k[1]}:{k[0]} is {got.get(k)}, expected {want.get(k)}".replace("'", ""))
    lazily(ck, "metadata", t, good)


def run(ck):
    ck.floor = 200000
    good = world(ck, "c19", lambda p: World(p, [module("m", sleaf("t"))]))
    placement(ck, good)
    numbering(ck, good)
    types(ck, good)
    metadata(ck, good)
