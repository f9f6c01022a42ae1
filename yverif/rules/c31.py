"""C31: names resolve through the module that contains them."""
from .common import *
from ..world import leaf as sleaf, ModelRejected
from .refcmp import plain
from .c19 import lazily
from . import scopes
from .scopes import T

U = lambda c, *s: S("container", c, *s)
IMP = lambda n, p=None, *s: S("import", n, S("prefix", p or n), *s)


def broken():
    """(what, modules, submodules, library, class of the exception)"""
    n = module("n", S("feature", "f"), S("identity", "i"), S("typedef", "t", T("string")), S("grouping", "gr", sleaf("x")), U("c", sleaf("l"), S("typedef", "inner", T("int8")), S("grouping", "ingr", sleaf("x"))))
    one = lambda *b: ([module("m", IMP("n", "p"), *b), n], [], {})
    P, D = "UnknownPrefix", "DefinitionNotFound"
    out = []
    add = lambda what, w, cls: out.append((what, *w, cls))
    for ctx, wrap in (("", lambda *s: s), ("in a grouping", lambda *s: (S("grouping", "h", *s), U("u", S("uses", "h")))), ("in a case", lambda *s: (S("choice", "ch", S("case", "ca", *s)),)), ("in an operation", lambda *s: (S("rpc", "r", S("input", None, *s)),))):
        for bad in ("zz", "n"):     # a prefix that is not declared; the name of the module is none either
            add(f"type {bad}:t {ctx}", one(*wrap(sleaf("a", bad + ":t"))), P)
            add(f"uses {bad}:gr {ctx}", one(*wrap(S("uses", bad + ":gr"))), P)
            add(f"base {bad}:i {ctx}", one(*wrap(sleaf("a", T("identityref", S("base", bad + ":i"))))), P)
            add(f"if-feature {bad}:f {ctx}", one(*wrap(sleaf("a", "string", S("if-feature", bad + ":f")))), P)
            add(f"leafref path with prefix {bad} {ctx}", one(*wrap(sleaf("a", T("leafref", S("path", f"/{bad}:c/{bad}:l"))))), P)
            add(f"when with prefix {bad} {ctx}", one(*wrap(sleaf("a", "string", S("when", f"../{bad}:l")))), P)
            add(f"must with prefix {bad} {ctx}", one(*wrap(U("a", S("must", f"../{bad}:l = 1")))), P)
            add(f"key with prefix {bad} {ctx}", one(*wrap(S("list", "a", S("key", bad + ":k"), sleaf("k")))), P)
            add(f"unique with prefix {bad} {ctx}", one(*wrap(S("list", "a", S("key", "k"), sleaf("k"), S("unique", bad + ":v"), sleaf("v")))), P)
            add(f"type in a union with prefix {bad} {ctx}", one(*wrap(sleaf("a", T("union", T("int8"), T(bad + ":t"))))), P)
            add(f"choice default with prefix {bad} {ctx}", one(*wrap(S("choice", "k", S("default", bad + ":ca"), sleaf("ca")))), P)
        add(f"undefined type {ctx}", one(*wrap(sleaf("a", "nowhere"))), D)
        add(f"undefined type of another module {ctx}", one(*wrap(sleaf("a", "p:nowhere"))), D)
        add(f"type of another module without prefix {ctx}", one(*wrap(sleaf("a", "t"))), D)
        add(f"type defined in an inner scope of another module {ctx}", one(*wrap(sleaf("a", "p:inner"))), D)
        add(f"grouping defined in an inner scope of another module {ctx}", one(*wrap(S("uses", "p:ingr"))), D)
        add(f"undefined grouping {ctx}", one(*wrap(S("uses", "nowhere"))), D)
        add(f"undefined grouping of another module {ctx}", one(*wrap(S("uses", "p:nowhere"))), D)
        add(f"grouping of another module without prefix {ctx}", one(*wrap(S("uses", "gr"))), D)
        add(f"type that is a grouping {ctx}", one(*wrap(sleaf("a", "p:gr"))), D)
        add(f"grouping that is a type {ctx}", one(*wrap(S("uses", "p:t"))), D)
        add(f"type defined in a sibling {ctx}", one(*wrap(U("s", S("typedef", "loc", T("int8")), sleaf("b", "loc")), sleaf("a", "loc"))), D)
        add(f"grouping defined in a sibling {ctx}", one(*wrap(U("s", S("grouping", "loc", sleaf("b"))), U("t", S("uses", "loc")))), D)
        add(f"type defined in a sibling, with own prefix {ctx}", one(*wrap(U("s", S("typedef", "loc", T("int8"))), sleaf("a", "m:loc"))), D)
    add("augment path with unknown prefix", one(S("augment", "/zz:c", sleaf("a"))), P)
    add("deviation path with unknown prefix", one(S("deviation", "/zz:c", S("deviate", "not-supported"))), P)
    add("refine path with unknown prefix", one(U("u", S("uses", "p:gr", S("refine", "zz:x", S("default", "d"))))), P)
    add("augment path in uses with unknown prefix", one(U("u", S("uses", "p:gr", S("augment", "zz:x", sleaf("d"))))), P)
    add("base of an identity with unknown prefix", one(S("identity", "x", S("base", "zz:i"))), P)
    add("prerequisite of a feature with unknown prefix", ([module("m", S("feature", "g", S("if-feature", "zz:f")))], [], {"m": {"feature": ["g"]}}), P)
    add("typedef of a typedef with unknown prefix", one(S("typedef", "a", T("zz:t")), sleaf("l", "a")), P)
    add("annotation type with unknown prefix", ([module("m", IMP("ietf-yang-metadata", "md"), S("annotation", "a", T("zz:t"), pref="md")), module("ietf-yang-metadata", prefix="md")], [], {}), P)
    add("import of a module that is not in the library", ([module("m", IMP("q"))], [], {}), "ModuleNotRegistered")
    add("import of a revision that is not in the library", ([module("m", IMP("n", "p", S("revision-date", "2001-01-01"))), n], [], {}), "ModuleNotRegistered")
    add("import of a later revision than in the library", ([module("m", IMP("n", "p", S("revision-date", "2029-01-01"))), n], [], {}), "ModuleNotRegistered")
    add("module text missing", ([module("m")], [], {"m": {"submodule": [{"name": "nosub", "revision": "2020-01-01"}]}}), "ModuleNotFound")
    sub = lambda *b: S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), *b)
    insub = lambda *b: ([module("m", S("include", "s"), IMP("n", "p")), n], [sub(*b)], {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}})
    add("prefix of the module's import in a submodule", insub(sleaf("a", "p:t")), P)
    add("prefix of the module in a submodule that calls it otherwise", insub(S("typedef", "t", T("int8")), sleaf("a", "m:t")), P)
    add("uses with the module's import prefix in a submodule", insub(S("uses", "p:gr")), P)
    add("feature with the module's import prefix in a submodule", insub(sleaf("a", "string", S("if-feature", "p:f"))), P)
    add("base with the module's import prefix in a submodule", insub(S("identity", "a", S("base", "p:i"))), P)
    add("XPath with the module's import prefix in a submodule", insub(sleaf("a", "string", S("when", "/p:c"))), P)
    add("augment with the module's import prefix in a submodule", insub(S("augment", "/p:c", sleaf("a"))), P)
    add("prefix of the submodule's import in the module", ([module("m", S("include", "s"), sleaf("a", "p:t")), n], [sub(IMP("n", "p"))], {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}}), P)
    add("belongs-to of a submodule names another module", ([module("m", S("include", "s"))], [S("submodule", "s", S("belongs-to", "other", S("prefix", "mm")), S("revision", "2020-01-01"))], {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}}), "StatementNotFound")
    return out


def errors(ck, good):
    for what, mods, subs, lib, cls in broken():
        def t(x, what=what, mods=mods, subs=subs, lib=lib, cls=cls):
            w = World(x.p, mods, lib, subs)
            try:
                w.prepare()
            except ModelRejected as e:
                c = getattr(e.exc.cls, "name", "?")
                x.expect(c == cls, "reported-as", where(what), f"{what}: the model is rejected with {c}, expected {cls}", e.loc)
                r = x.attempt(lambda: x.I.str_(e.exc))
                x.expect(r[0] == "ok" and isinstance(x.I.force(r[1]), (K, Sym)) and x.I.force(r[1]) != NONE, "printable", cls, f"{what}: the {c} cannot be printed: {r[1]}")
                return
            x.expect(False, "reported", where(what), f"{what} is accepted (expected {cls})")
        lazily(ck, "error/" + what.replace(" ", "-"), t, good)


def where(what):
    for k, f in (("refine", "SchemaNode._refine_stmt"), ("uses", "SchemaData.get_definition"), ("grouping", "SchemaData.get_definition"), ("typedef", "SchemaData.get_definition"), ("type", "SchemaData.get_definition"), ("feature", "FeatureExprParser._feature_atom"), ("import", "SchemaData._process_imports"), ("base", "SchemaData.translate_pname")):
        if k in what:
            return f
    return "SchemaData.translate_node_id"


def revisions(ck, good):
    """import with and without revision-date, several revisions of a module."""
    def n(rev, typ, feat, *b):
        return module("n", S("typedef", "t", T(typ)), S("typedef", "only-" + rev[:4], T(typ)), S("grouping", "gr", sleaf("x-" + rev[:4], "t"), sleaf("y", "string", S("if-feature", "f"))), S("feature", "f"), *b, rev=rev)
    for latest in ("2021-01-01", "2018-05-05"):
        for impl in (None, "2019-01-01", latest):
            def t(x, latest=latest, impl=impl):
                mods = [n("2019-01-01", "int8", True), n(latest, "int16", False), n("2017-07-07", "int32", False)]
                newest = max(latest, "2019-01-01")
                ty = {"2019-01-01": "int8", latest: "int16", "2017-07-07": "int32"}
                m = module("m", S("include", "s"), IMP("n", "a", S("revision-date", "2019-01-01")), IMP("n", "b", S("revision-date", latest)), IMP("n", "c", S("revision-date", "2017-07-07")), IMP("n", "d"),
                           *[e for p in "abcd" for e in (sleaf("t" + p, p + ":t"), U("u" + p, S("uses", p + ":gr")), sleaf("f" + p, "string", S("if-feature", p + ":f")))], S("uses", "sg"))
                s = S("submodule", "s", S("belongs-to", "m", S("prefix", "m")), S("revision", "2020-01-01"), IMP("n", "a", S("revision-date", "2017-07-07")), IMP("n", "c"), sleaf("sa", "a:t"), S("grouping", "sg", sleaf("sc", "c:t"), sleaf("sfa", "string", S("if-feature", "a:f"))))
                lib = {f"n@{r}": {"conformance-type": "implement" if r == impl else "import", "feature": ["f"] if r == "2019-01-01" else []} for r in ty}
                lib["m"] = {"submodule": [{"name": "s", "revision": "2020-01-01"}]}
                for order in (mods + [m], [m] + mods[::-1]):
                    w = World(x.p, order, lib, [s])
                    try:
                        w.prepare()
                    except ModelRejected as e:
                        x.expect(False, "valid-model-accepted", "DataModel", f"a model with several revisions of a module is rejected: {e}", e.loc)
                        return
                    sc = w.scene(x.I)
                    names = {plain(x, x.attr(c, "name")): c for c in seq(x.I, x.attr(sc.schema, "children"))}
                    typ = lambda nm: plain(x, x.call(x.attr(names[nm], "type"), "yang_type")) if nm in names else "missing"
                    for nm, r in [("t" + p, r) for p, r in zip("abcd", ("2019-01-01", latest, "2017-07-07", newest))] + [("sa", "2017-07-07"), ("sc", newest)]:
                        x.expect(typ(nm) == ty[r], "revision", "SchemaData._process_imports", f"leaf {nm} has the type {typ(nm)} instead of that in revision {r}")
                    for p, r in zip("abcd", ("2019-01-01", latest, "2017-07-07", newest)):
                        got = sorted(plain(x, x.attr(c, "name")) for c in seq(x.I, x.attr(names["u" + p], "children")))
                        want = sorted(["x-" + r[:4]] + (["y"] if r == "2019-01-01" else []))
                        x.expect(got == want, "revision", "SchemaData.get_definition", f"container u{p} uses the grouping with {got}, expected that of revision {r}: {want}".replace("'", ""))
                        x.expect(("f" + p in names) == (r == "2019-01-01"), "revision", "FeatureExprParser._feature_atom", f"leaf f{p} is {'present' if 'f' + p in names else 'missing'}; the feature of revision {r} is {'on' if r == '2019-01-01' else 'off'}")
                    x.expect("sfa" not in names, "revision", "FeatureExprParser._feature_atom", "leaf sfa is present although the feature of revision 2017-07-07 is off")
            lazily(ck, f"revisions/{latest}/{impl}", t, good)


def queries(ck, good):
    """Direct questions to the schema data about prefixes and names."""
    def t(x):
        sub = S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), IMP("n", "o"), IMP("o", "n"))
        mods = [module("m", S("include", "s"), IMP("n", "p"), IMP("o", "q"), prefix="own"), module("n", prefix="own", rev="2019-09-09"), module("o", prefix="o", rev="2018-08-08")]
        w = World(x.p, mods, {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}, "o": {"conformance-type": "import"}}, [sub])
        w.prepare()
        sc = w.scene(x.I)
        sd = x.attr(sc.dm, "schema_data")
        mids = {"m": ("m", "2020-01-01"), "s": ("s", "2020-01-01"), "n": ("n", "2019-09-09"), "o": ("o", "2018-08-08"), "none": ("m", "1999-01-01"), "nobody": ("nobody", "")}
        maps = {"m": {"own": "m", "p": "n", "q": "o"}, "s": {"mm": "m", "o": "n", "n": "o"}, "n": {"own": "n"}, "o": {"o": "o"}}
        mainmod = {"m": "m", "s": "m", "n": "n", "o": "o"}
        mid = lambda k: Lst("tuple", [K(mids[k][0]), K(mids[k][1])])
        SD = "SchemaData."

        def ask(f, want, *args, desc=""):
            r = x.attempt(lambda: x.call(sd, f, *args))
            got = plain(x, r[1]) if r[0] == "ok" else r[1]
            x.expect(got == want, "query", SD + f, f"{f}({desc}) gives {got}, expected {want}".replace("'", ""))
        for k in mids:
            ask("namespace", mainmod[k] if k in maps else "ModuleNotRegistered", mid(k), desc=k)
            for p in ("own", "p", "q", "mm", "o", "n", "m", "zz", ""):
                ns = "ModuleNotRegistered" if k not in maps else maps[k].get(p, "UnknownPrefix")
                ask("prefix2ns", ns, K(p), mid(k), desc=f"{p}, {k}")
                err = ns if k not in maps or p not in maps[k] else None
                for f, res in (("resolve_pname", lambda m: ("x", mids[m])), ("translate_pname", lambda m: ("x", mainmod[m]))):
                    ask(f, err or res(maps[k][p]), K(p + ":x"), mid(k), desc=f"{p}:x, {k}")
            for f, res in (("resolve_pname", lambda m: ("x", mids[m])), ("translate_pname", lambda m: ("x", m))):
                ask(f, res(mainmod[k]) if k in maps else "ModuleNotRegistered", K("x"), mid(k), desc=f"x, {k}")
            for imod in ("m", "n", "o", "zz"):
                want = "ModuleNotImplemented" if imod not in ("m", "n") else "ModuleNotRegistered" if k not in maps else next((p for p, m in maps[k].items() if m == imod), "ModuleNotImported")
                ask("prefix", want, K(imod), mid(k), desc=f"{imod}, {k}")
            for ns in ("m", "n"):
                ctx = x.I.instantiate(x.p.cls("SchemaContext"), [sd, K(ns), mid(k)], {})
                ask("translate_node_id", ("x", ns), K("x"), ctx, desc=f"x, text {k}, default {ns}")
                for p in ("own", "p", "q", "mm", "o", "n", "zz"):
                    want = "ModuleNotRegistered" if k not in maps else ("x", mainmod[maps[k][p]]) if p in maps[k] else "UnknownPrefix"
                    ask("translate_node_id", want, K(p + ":x"), ctx, desc=f"{p}:x, text {k}, default {ns}")
                    if k in maps:
                        want = [("a", mainmod[maps[k][p]]), ("b", ns), ("c", mainmod[maps[k][p]])] if p in maps[k] else "UnknownPrefix"
                        for lead in ("/", ""):
                            ask("sni2route", want, K(f"{lead}{p}:a/b/{p}:c"), ctx, desc=f"{lead}{p}:a/b/{p}:c, text {k}, default {ns}")
        for name, want in (("m", mids["m"]), ("n", mids["n"]), ("o", mids["o"]), ("s", mids["s"]), ("zz", "ModuleNotRegistered")):
            ask("last_revision", want, K(name), desc=name)
        for path, want in (("", []), ("/", []), ("/m:a", [("a", "m")]), ("m:a", [("a", "m")]), ("/m:a/b", [("a", "m"), ("b", "m")]), ("/m:a/n:b/c", [("a", "m"), ("b", "n"), ("c", "n")]), ("m:a/n:b/m:c", [("a", "m"), ("b", "n"), ("c", "m")]),
                           ("/a", "InvalidSchemaPath"), ("a/m:b", "InvalidSchemaPath"), ("/m:a/m:b", "InvalidSchemaPath"), ("/m:a/b/m:c", "InvalidSchemaPath")):
            ask("path2route", want, K(path), desc=path)
    lazily(ck, "queries", t, good)


def run(ck):
    ck.floor = 60000
    good = world(ck, "c19", lambda p: World(p, [module("m", sleaf("t"))]))
    scopes.run_models(ck, good, ("",), "scope")
    errors(ck, good)
    revisions(ck, good)
    queries(ck, good)
