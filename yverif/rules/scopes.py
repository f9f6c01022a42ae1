"""Models in which the same prefix denotes different modules in different texts.

Every (sub)module binds the prefixes `own`, `p` and `q` differently, and all
modules define the same names, so that a name resolved in the wrong text gives
another - existing - thing.  Used for C20 (refine, augment, deviation) and C31."""
import itertools
from .common import *
from .refcmp import check, plain
from ..world import leaf as sleaf, ModelRejected

T = lambda n, *s: S("type", n, *s)
TYPE = {"n": "int8", "o": "int16", "m": "int32", "g": "uint8", "a": "uint16", "d": "uint32"}
FEATURES = {"n": ["f"], "o": [], "m": ["f"], "g": [], "a": ["f"], "d": []}
NAMES = ("", "own:", "p:", "q:")


def common(name):
    """Definitions every module has under the same names."""
    return [S("identity", "id", S("base", "bb:base")), S("identity", "sub", S("base", "id")), S("typedef", "t", T(TYPE[name])), S("grouping", "gr", sleaf("in-" + name, "t"), sleaf("both")),
            S("feature", "f"), S("container", "c", sleaf("l", TYPE[name]), S("list", "li", S("key", "k"), sleaf("k"), sleaf("v", TYPE[name])))]


def imports(p, q, *more):
    return [S("import", p, S("prefix", "p")), S("import", q, S("prefix", "q")), S("import", "bb", S("prefix", "bb")), *[S("import", x, S("prefix", y)) for x, y in more]]


BB = module("bb", S("identity", "base"), S("typedef", "idt", T("identityref", S("base", "base"))))


def stuff(tag, names=NAMES, state=True, data=True):
    """Statements that contain names, one set for each prefix."""
    r = []
    for P in names:
        n = tag + (P[:-1] or "un")
        r += [sleaf(f"t-{n}", P + "t"), S("leaf-list", f"tl-{n}", T(P + "t", S("range", "1..5"))), sleaf(f"i-{n}", T("identityref", S("base", P + "id"))), sleaf(f"d-{n}", "bb:idt", S("default", P + "id")), S("leaf-list", f"dl-{n}", T("bb:idt"), S("default", P + "sub"), S("default", P + "id")),
              S("container", f"u-{n}", S("uses", P + "gr")), sleaf(f"r-{n}", T("leafref", S("path", f"/{P}c/{P}l"))), sleaf(f"w-{n}", "string", S("when", f"/{P}c/{P}l"), S("must", f"/{P}c/{P}l = {P}x"), S("must", f"../{P}y")),
              S("container", f"f-{n}", S("if-feature", P + "f"), sleaf("z")), sleaf(f"un-{n}", T("union", T(P + "t"), T("identityref", S("base", P + "id"))), S("default", P + "sub"))]
    return r


def base():
    return [module("n", S("import", "bb", S("prefix", "bb")), *common("n")), module("o", S("import", "bb", S("prefix", "bb")), *common("o")), BB]


def mod(name, prefix, imps, *subs):
    return module(name, *imps, *common(name), *subs, prefix=prefix)


def models():
    """name -> (modules, submodules)"""
    U = lambda c, *s: S("container", c, *s)
    r = {}
    g = lambda *b: mod("g", "own", imports("o", "n"), *b)
    m = lambda *b: mod("m", "own", imports("n", "o", ("g", "g")), *b)
    r["plain"] = ([m(*stuff("a"), U("b", *stuff("b")), S("grouping", "h", *stuff("h")), U("u", S("uses", "own:h")), U("v", S("uses", "h"))), g()], [])
    far = [S("grouping", "far", *stuff("x"), U("deep", *stuff("y")), S("choice", "ch", *stuff("z")))]
    r["grouping"] = ([m(U("u", S("uses", "g:far")), S("uses", "g:far", S("when", "q:w"))), g(*far, U("v", S("uses", "far")))], [])
    r["grouping-nested"] = ([m(S("grouping", "near", S("uses", "g:far"), *stuff("w")), U("u", S("uses", "near")), U("v", S("uses", "own:near"))), g(*far)], [])
    r["typedef"] = ([m(*[sleaf(f"l-{k}", f"g:w-{k}") for k in ("un", "own", "p", "q")], *[sleaf(f"i-{k}", f"g:i-{k}") for k in ("un", "own", "p", "q")], *[sleaf(f"j-{k}-{P}", f"g:i-{k}", S("default", P + ":sub")) for k in ("un", "own", "p", "q") for P in ("own", "p", "q") if {"un": "g", "own": "g", "p": "o", "q": "n"}[k] == {"own": "m", "p": "n", "q": "o"}[P]]),
                     g(*[S("typedef", "w-" + (P[:-1] or "un"), T(P + "t", S("range", "0..9"))) for P in NAMES], *[S("typedef", "i-" + (P[:-1] or "un"), T("identityref", S("base", P + "id")), S("default", P + "sub")) for P in NAMES])], [])
    # a submodule: its own prefix for the module is p, the others are exchanged
    sub = S("submodule", "ms", S("belongs-to", "m", S("prefix", "p")), S("revision", "2020-01-01"), S("import", "o", S("prefix", "own")), S("import", "n", S("prefix", "q")), S("import", "bb", S("prefix", "bb")),
            *stuff("s"), U("sc", *stuff("sd")), S("grouping", "sg", *stuff("se")), S("typedef", "st", T("own:t")), S("typedef", "su", T("q:t", S("range", "1"))), S("identity", "sid", S("base", "q:id")), S("identity", "sie", S("base", "p:sub")))
    r["submodule"] = ([mod("m", "own", imports("n", "o", ("g", "g")), S("include", "ms"), U("u", S("uses", "sg")), U("v", S("uses", "own:sg")), sleaf("x", "st"), sleaf("y", "own:su"), sleaf("z", "bb:idt", S("default", "sid")), *stuff("a")), g()], [sub])
    r["submodule-far"] = ([mod("a", "own", [S("import", "m", S("prefix", "p")), S("import", "n", S("prefix", "q")), S("import", "bb", S("prefix", "bb"))], U("u", S("uses", "p:sg")), sleaf("x", "p:st"), sleaf("y", "p:su"), sleaf("z", "bb:idt", S("default", "p:sid"))),
                           mod("m", "own", imports("n", "o", ("g", "g")), S("include", "ms")), g()], [sub])
    # refine and augment in a use of a grouping of another module
    ref = lambda i, *s: S("refine", i, *s)
    vs = [("", "m"), ("own:", "m"), ("p:", "n"), ("q:", "o")]
    plainf = [S("grouping", "far", sleaf("i", "bb:idt"), sleaf("j", "bb:idt", S("default", "p:id")), S("leaf-list", "k", T("bb:idt"), S("default", "id")), U("b", sleaf("x"), U("e", sleaf("x")), S("choice", "ch", S("default", "c1"), sleaf("c1"), S("case", "c2", sleaf("x2")))), S("list", "li", S("key", "k"), sleaf("k"), sleaf("v")))]
    for P, _ in vs:
        own = P if P in ("", "own:") else ""
        k = P[:-1] or "un"
        r["refine-" + k] = ([m(U("u", S("uses", "g:far", ref(own + "i", S("default", P + "id"), S("must", f"/{P}c/{P}l = {P}x")), ref("j", S("default", P + "sub")), ref("k", S("default", P + "sub"), S("default", P + "id")), ref(f"{own}b/{own}ch", S("default", own + "c2")), ref(f"{own}b", S("must", f"{P}x/{P}y"), S("presence", "p")),
                                                      ref(f"{own}b/{own}x", S("if-feature", P + "f")), ref("li", S("must", f"/{P}c/{P}l")))), U("before", S("uses", "g:far"))), g(*plainf, U("v", S("uses", "far")))], [])
        r["augment-uses-" + k] = ([m(U("u", S("uses", "g:far", S("augment", f"{own}b/{own}e", *stuff("x", (P,))), S("augment", f"{own}b", S("when", f"/{P}c/{P}l"), *stuff("y", (P,))), S("augment", f"{own}b/{own}ch", *stuff("z", (P,)))))), g(*plainf, U("v", S("uses", "far")))], [])
    a = lambda *b: mod("a", "own", [S("import", "m", S("prefix", "p")), S("import", "n", S("prefix", "q")), S("import", "g", S("prefix", "g")), S("import", "bb", S("prefix", "bb"))], *b)
    r["augment"] = ([a(S("augment", "/p:c", *stuff("x")), S("augment", "/p:c/p:li", S("when", "/p:c/q:w"), *stuff("y")), S("augment", "/q:c", *stuff("z")), S("augment", "/own:c/li", *stuff("w")), S("augment", "/p:u", U("a2", *stuff("v"))), S("augment", "/p:u/a2", sleaf("deep", "p:t"))), m(U("u", S("uses", "g:far"))), g(*plainf)], [])
    d = lambda *b: mod("d", "own", [S("import", "m", S("prefix", "p")), S("import", "n", S("prefix", "q")), S("import", "g", S("prefix", "g")), S("import", "a", S("prefix", "x")), S("import", "bb", S("prefix", "bb"))], *b)
    dv = lambda a_, *s: S("deviate", a_, *s)
    dev = lambda p, *s: S("deviation", p, *s)
    devs = []
    for P in NAMES:
        k = P[:-1] or "un"
        devs += [dev(f"/p:t-{k}", dv("replace", T(P + "t"))), dev(f"/p:i-{k}", dv("replace", T("identityref", S("base", P + "id")))), dev(f"/p:e-{k}", dv("add", S("default", P + "id"))), dev(f"/p:j-{k}", dv("replace", S("default", P + "sub"))), dev(f"/p:k-{k}", dv("add", S("must", f"/{P}c/{P}l = {P}x"))),
                 dev(f"/p:l-{k}", dv("add", S("default", P + "sub"), S("default", P + "id"))), dev(f"/p:r-{k}", dv("replace", T("leafref", S("path", f"/{P}c/{P}l"))))]
    tg = [x for P in NAMES for k in (P[:-1] or "un",) for x in (sleaf(f"t-{k}"), sleaf(f"i-{k}"), sleaf(f"e-{k}", "bb:idt"), sleaf(f"j-{k}", "bb:idt", S("default", "p:id")), U(f"k-{k}"), S("leaf-list", f"l-{k}", T("bb:idt")), sleaf(f"r-{k}"))]
    r["deviation"] = ([d(*devs), a(), m(*tg), g()], [])
    r["deviation-must"] = ([d(*[dev(f"/p:k{i}", dv("delete", S("must", e))) for i, e in enumerate(("/q:c/q:l", "/p:c/p:l", "../p:y", "/x:c"))]), a(), m(*[U(f"k{i}", S("must", "/p:c/p:l"), S("must", "/c/own:l"), S("must", "../y"), S("must", "/q:c")) for i in range(4)]), g()], [])
    # definitions of the same names in separate scopes, with and without the module's own prefix
    L = lambda n, t: sleaf(n, t)
    D = lambda n, t: S("typedef", n, T(t))
    both = lambda n, t: [L(n + "-un", t), L(n + "-own", "own:" + t), S("leaf-list", n + "-union", T("union", T(t), T("own:" + t), T("bb:idt")))]
    r["scoped"] = ([m(D("w", "uint64"), U("a", D("t2", "int8"), S("grouping", "h", D("u", "int16"), *both("x", "t2"), U("i", *both("y", "u"), S("uses", "own:k"), S("grouping", "k", *both("z", "u"), *both("zz", "t2")))), *both("v", "t2"), S("uses", "h"), S("list", "li", D("s", "t2"), S("key", "k"), L("k", "s"), S("uses", "own:k2"), S("grouping", "k2", L("q", "own:s")))),
                     U("b", D("t2", "int32"), S("grouping", "h", *both("x", "t2"), *both("w", "w")), *both("v", "t2"), S("uses", "own:h")), S("choice", "ch", S("case", "ca", U("e", D("t2", "uint8"), *both("v", "t2"))), U("e2", D("t2", "boolean"), *both("v", "t2"))),
                     S("rpc", "r", D("t2", "uint16"), S("grouping", "rg", *both("x", "t2")), S("input", None, D("t3", "t2"), *both("i", "t3"), S("uses", "rg")), S("output", None, D("t3", "uint32"), *both("o", "t3"), *both("p", "t2"), S("uses", "own:rg"))),
                     S("notification", "n", D("t2", "uint64"), S("grouping", "ng", *both("x", "t2")), S("uses", "ng")), U("act", S("action", "x", D("t2", "int64"), S("grouping", "h", *both("x", "t2")), S("input", None, S("uses", "h")))),
                     S("augment", "/own:b", U("f", D("t2", "binary"), *both("v", "t2"))), U("far", S("uses", "g:outer"), D("t2", "empty")), L("plain", "w"), S("grouping", "shared", *both("x", "w"), S("uses", "h2")), S("grouping", "h2", *both("y", "w")), U("sh", S("uses", "shared"))),
                   g(S("grouping", "outer", D("t2", "uint8"), *both("v", "t2"), S("grouping", "in2", *both("x", "t2"), *both("o", "w")), S("uses", "in2"), U("deep", S("uses", "own:in2"))), D("w", "int64"))], [])
    return r


def run_models(ck, good, names, rule):
    for name, (mods, subs) in models().items():
        if not any(name.startswith(n) for n in names):
            continue

        def t(x, name=name, mods=mods, subs=subs):
            for k, order in enumerate((mods, mods[::-1])):
                try:
                    check(x, order + base(), subs, FEATURES, rule=rule, label=f"{name}: ")
                except ModelRejected as e:
                    x.expect(False, "valid-model-accepted", "DataModel", f"a valid model ({name}) is rejected: {e}", e.loc)
        ck.scenario(f"scopes/{name}", t, good, Config(steps=6 * 10 ** 7, rec=200, depth=600), max_paths=3)
