"""C20: refine, augment and deviation change exactly the targeted properties.

For every node kind and property, in every kind of place, a model is changed by
refine, augment or deviation and compiled abstractly; it must equal, node by node
and property by property, the reference compilation, in which the change is a
rewriting of the target's statements.  Other uses of the same grouping and all
other nodes are compared as well, so a change of anything else is seen."""
import itertools
from .common import *
from .c19 import run_check, lazily, output, T
from ..world import leaf as sleaf
from . import scopes

MUSTS = (S("must", "a1"), S("must", "b1", S("error-app-tag", "tg"), S("error-message", "msg")))


def targets(p=""):
    """Definitions that can be targets: name -> statement."""
    r = {
        "l0": sleaf("l0"), "l1": sleaf("l1", "string", S("default", "old"), S("description", "od"), S("units", "ou")), "lm": sleaf("lm", "string", S("mandatory", "true")), "lf": sleaf("lf", "string", S("config", "false")),
        "lu": sleaf("lu", "string", *MUSTS), "lt": sleaf("lt", "tt"), "ltd": sleaf("ltd", "tt", S("default", "own"), S("units", "own")), "lw": sleaf("lw", "string", S("when", "w")),
        "ll0": S("leaf-list", "ll0", T("string")), "ll1": S("leaf-list", "ll1", T("string"), S("default", "d1"), S("default", "d2"), S("max-elements", "5"), S("description", "od"), S("units", "ou"), *MUSTS), "ll2": S("leaf-list", "ll2", T("string"), S("min-elements", "1"), S("ordered-by", "user")),
        "llf": S("leaf-list", "llf", T("tt"), S("config", "false")),
        "c0": S("container", "c0", sleaf("x"), S("container", "in", sleaf("deep"))), "c1": S("container", "c1", S("presence", "p"), *MUSTS, S("description", "od"), sleaf("x", "string", S("mandatory", "true"))), "cf": S("container", "cf", S("config", "false"), sleaf("x")),
        "t0": S("list", "t0", S("key", "k"), sleaf("k"), sleaf("x"), sleaf("y")), "t1": S("list", "t1", S("key", "k"), S("unique", "x y"), S("unique", "x"), S("min-elements", "1"), S("max-elements", "4"), S("ordered-by", "user"), S("description", "od"), *MUSTS, sleaf("x"), sleaf("y"), sleaf("k")),
        "tf": S("list", "tf", S("config", "false"), sleaf("x")),
        "h0": S("choice", "h0", sleaf("ha"), S("case", "hb", sleaf("hb1"), sleaf("hb2"))), "h1": S("choice", "h1", S("default", "hc"), S("description", "od"), sleaf("hc"), S("case", "hd", sleaf("hd1"))), "hm": S("choice", "hm", S("mandatory", "true"), sleaf("he"), sleaf("hf")),
        "a0": S("anydata", "a0"), "a1": S("anydata", "a1", S("mandatory", "true"), *MUSTS, S("description", "od")), "y0": S("anyxml", "y0"), "y1": S("anyxml", "y1", S("config", "false")),
    }
    return r


def applicable(kind):
    leafy = kind in ("leaf", "leaf-list", "anydata", "anyxml")
    return {
        "description": True, "config": kind != "case", "must": kind in ("leaf", "leaf-list", "container", "list", "anydata", "anyxml"), "mandatory": kind in ("leaf", "choice", "anydata", "anyxml"),
        "default": kind in ("leaf", "leaf-list", "choice"), "presence": kind == "container", "min-elements": kind in ("list", "leaf-list"), "max-elements": kind in ("list", "leaf-list"),
        "units": kind in ("leaf", "leaf-list"), "type": kind in ("leaf", "leaf-list"), "unique": kind == "list",
    }


def props(st, prop):
    return [s for s in st[2] if s[0] == prop]


def refinements(name, st):
    """Lists of refine substatements that are valid for the target."""
    ok = applicable(st[0])
    has = lambda p: bool(props(st, p))
    out = [[S("description", "new text")], [S("reference", "r")], [S("frob", "z", pref="ext")]]
    if ok["config"] and not any(s[0] == "key" for s in st[2] if False):
        out += [[S("config", "false")], [S("config", "true")]]
    if ok["must"]:
        out += [[S("must", "n1")], [S("must", "n1", S("error-message", "nm")), S("must", "n2", S("error-app-tag", "nt"))]]
    if ok["mandatory"]:
        if not has("default"):
            out += [[S("mandatory", "true")]]
        out += [[S("mandatory", "false")]]
    if ok["default"] and st[0] == "choice":
        if not has("mandatory"):
            out += [[S("default", s[1])] for s in st[2] if s[0] in ("leaf", "case")]
    elif st[0] == "leaf":
        out += [[S("default", "new")] if not has("mandatory") else [S("mandatory", "false"), S("default", "new")]]
    elif st[0] == "leaf-list" and not has("min-elements"):
        out += [[S("default", "n1")], [S("default", "n1"), S("default", "n2"), S("default", "n3")]]
    if ok["presence"]:
        out += [[S("presence", "now")]]
    if ok["min-elements"]:
        if not has("default"):
            out += [[S("min-elements", "3")], [S("min-elements", "0")]]
        out += [[S("max-elements", "9")], [S("max-elements", "unbounded")], [S("max-elements", "7"), S("description", "both"), S("must", "n")]]
    return out


def deviations(name, st, p=""):
    """Lists of deviate statements that are valid for the target."""
    ok = applicable(st[0])
    has = lambda q: bool(props(st, q))
    dv = lambda a, *s: S("deviate", a, *s)
    out = [[dv("not-supported")], [dv("add", S("frob", "z", pref="ext"))], [dv("replace", S("frob", "z", pref="ext"))]]
    if not has("config"):
        out += [[dv("add", S("config", "false"))], [dv("add", S("config", "true"))]]
    else:
        out += [[dv("replace", S("config", "true"))], [dv("replace", S("config", "false"))]]
    if ok["must"]:
        out += [[dv("add", S("must", "n1"))], [dv("add", S("must", "n1", S("error-message", "nm")), S("must", "n2", S("error-app-tag", "nt")))]]
        for ms in ([MUSTS[0]], [MUSTS[1]], list(MUSTS)) if has("must") else ():
            # the deleted expression is written in the deviating module
            out += [[dv("delete", *[S("must", p + m[1]) for m in ms])]]
        if has("must"):
            out += [[dv("delete", S("must", p + "b1")), dv("add", S("must", "n3"))]]
    if ok["mandatory"]:
        if has("mandatory"):
            out += [[dv("replace", S("mandatory", "false"))], [dv("replace", S("mandatory", "true"))]]
        else:
            out += [[dv("add", S("mandatory", "false"))]] + ([[dv("add", S("mandatory", "true"))]] if not has("default") else [[dv("delete", *[S("default", (p if st[0] == "choice" else "") + d[1]) for d in props(st, "default")]), dv("add", S("mandatory", "true"))]])
    if st[0] == "leaf":
        if has("default"):
            out += [[dv("replace", S("default", "new"))], [dv("delete", *props(st, "default"))]]
        elif not has("mandatory"):
            out += [[dv("add", S("default", "new"))]]
    if st[0] == "leaf-list" and not has("min-elements"):
        ds = props(st, "default")
        out += [[dv("add", S("default", "n1"))], [dv("add", S("default", "n1"), S("default", "n2"))]]
        if ds:
            out += [[dv("replace", S("default", "n1"))], [dv("replace", S("default", "n1"), S("default", "n2"), S("default", "n3"))], [dv("delete", ds[0])], [dv("delete", ds[1])], [dv("delete", *ds)], [dv("delete", *ds), dv("add", S("default", "n4"))]]
    if st[0] == "choice" and not has("mandatory"):
        cs = [p + s[1] for s in st[2] if s[0] in ("leaf", "case")]
        out += [[dv("replace" if has("default") else "add", S("default", c))] for c in cs]
        if has("default"):
            out += [[dv("delete", *[S("default", p + d[1]) for d in props(st, "default")])]]
    for b in ("min-elements", "max-elements"):
        if ok[b]:
            if has(b):
                out += [[dv("replace", S(b, "3"))]] + ([[dv("replace", S(b, "unbounded"))]] if b[1] == "a" else [[dv("replace", S(b, "0"))]])
            elif not (b == "min-elements" and has("default")):
                out += [[dv("add", S(b, "2"))]]
    if ok["units"]:
        if has("units"):
            out += [[dv("replace", S("units", "nu"))], [dv("delete", *props(st, "units"))], [dv("delete", *props(st, "units"), *props(st, "default"))]]
        else:
            out += [[dv("add", S("units", "nu"))]]
    if ok["type"]:
        out += [[dv("replace", T("string", S("length", "1..20")))], [dv("replace", T("dt"))]]
        if not has("default") and not has("mandatory"):
            out += [[dv("replace", T("uint8")), dv("add", S("default", "5"))], [dv("replace", T("uint8"), S("units", "x")) if has("units") else dv("replace", T("int8"))]]
    if ok["unique"] and props(st, "key"):
        out += [[dv("add", S("unique", p + "y"))], [dv("add", S("unique", p + "y " + p + "x"), S("unique", p + "y"))]]
        for us in [[u] for u in props(st, "unique")] + ([props(st, "unique")] if has("unique") else []):
            out += [[dv("delete", *[S("unique", " ".join(p + w for w in u[1].split())) for u in us])]]
    return out


EXT = module("ext")


def pre(*imports):
    return [S("import", "ext", S("prefix", "ext")), *imports, S("typedef", "tt", T("string"), S("default", "typed"), S("units", "typed"))]


def imp(n, p=None): return S("import", n, S("prefix", p or n))


def some(ck, name, rnd):
    """The target and bystanders: all of them, a rotating part in the quick tier."""
    ts = targets()
    if ck.tier != "quick":
        return ts
    return {n: s for i, (n, s) in enumerate(ts.items()) if n == name or (i + rnd + len(name)) % 7 == 0}


def refine(ck, good):
    every = targets()
    names = list(every)
    for name, st in every.items():
        for rnd, rs in enumerate(refinements(name, st)):
            ts = some(ck, name, rnd)
            # several places per model: plain use, nested in the grouping, in another module, in a choice, and unrefined uses around them
            inner = [S("container", "box", *ts.values()), S("choice", "pick", S("case", "one", *[ren(s, "q") for s in ts.values()]))]

            def t(x, name=name, st=st, rs=rs, inner=inner, ts=ts):
                m = module("m", *pre(imp("g", "gg")), S("grouping", "local", *ts.values()), S("grouping", "deep", *inner),
                           S("container", "before", S("uses", "local")), S("container", "u1", S("uses", "local", S("refine", name, *rs))), S("container", "between", S("uses", "local")),
                           S("container", "u2", S("uses", "deep", S("refine", "box/" + name, *rs))), S("container", "u3", S("uses", "deep", S("refine", "pick/one/" + name + "q", *requal(rs)))),
                           S("container", "u4", S("uses", "gg:far", S("refine", name, *rs))), S("list", "u5", S("key", "kk"), sleaf("kk"), S("uses", "gg:far", S("when", "w"), S("refine", name, *rs), S("refine", "other", S("description", "another")))),
                           S("container", "after", S("uses", "local"), S("container", "z", S("uses", "gg:far"))))
                g = module("g", *pre(), S("grouping", "far", *ts.values(), sleaf("other")), S("container", "gc", S("uses", "far")))
                run_check(x, [m, g, EXT], rule="refine", label=f"refine {name} {show_(rs)}: ")
            lazily(ck, f"refine/{name}/{rnd}", t, good)
    ts = every
    # several refinements of one use, and refinement of refinement
    pairs = [(a, b) for a, b in itertools.combinations(names, 2)]

    def several(part):
        def t(x):
            uses = []
            for i, (a, b) in enumerate(part):
                ra, rb = refinements(a, ts[a]), refinements(b, ts[b])
                uses.append(S("container", f"p{i}", S("uses", "local", S("refine", a, *ra[i % len(ra)]), S("refine", b, *rb[(i + 3) % len(rb)]))))
                uses.append(S("container", f"s{i}", S("uses", "outer", S("refine", a, *ra[(i + 1) % len(ra)]))))
            m = module("m", *pre(), S("grouping", "local", *ts.values()), S("grouping", "outer", S("uses", "local", S("refine", "l1", S("default", "outer"), S("description", "outer")), S("refine", "t0", S("min-elements", "1"), S("must", "outer")), S("refine", "ll0", S("default", "outer")))), *uses, S("container", "plain", S("uses", "outer")))
            run_check(x, [m, EXT], rule="refine", label="several refinements: ")
        return t
    step = 60
    for i in range(0, len(pairs), step):
        lazily(ck, f"refines/{i // step}", several(pairs[i:i + step][:: 1 if ck.tier != "quick" else 3]), good)


def ren(s, suf):
    """Top node of a definition renamed (also cases, which share its scope)."""
    if s[0] == "choice":
        d = {x[1] for x in s[2] if x[0] in ("leaf", "case")}
        return (s[0], s[1] + suf, tuple((x[0], x[1] + suf, tuple((y[0], y[1] + suf, y[2], y[3]) if y[0] == "leaf" else y for y in x[2]), x[3]) if x[0] in ("leaf", "case") else (x[0], x[1] + suf, x[2], x[3]) if x[0] == "default" and x[1] in d else x for x in s[2]), s[3])
    return (s[0], s[1] + suf, s[2], s[3])


def requal(rs):
    return [S("default", r[1] + "q") if r[0] == "default" and r[1] in CASES else r for r in rs]


CASES = {"ha", "hb", "hc", "hd", "he", "hf"}


def show_(rs):
    return ", ".join(f"{r[0]} {r[1]}" if r[0] != "deviate" else r[1] + " {" + show_(r[2]) + "}" for r in rs)


def places(sts):
    """Places of deviation targets: name -> (statements, path of the parent)."""
    return {
        "top": (sts, ""), "container": ([S("container", "c", *sts)], "/m:c"), "list": ([S("list", "li", S("key", "kk"), sleaf("kk"), *sts)], "/m:li"),
        "case": ([S("choice", "ch", S("case", "ca", *sts), sleaf("other"))], "/m:ch/m:ca"), "grouping": ([S("grouping", "g", *sts), S("container", "c", S("uses", "g")), S("container", "d", S("uses", "g"))], "/m:c"),
        "uses-when": ([S("grouping", "g", *sts), S("container", "c", S("uses", "g", S("when", "w"))), S("container", "d", S("uses", "g"))], "/m:c"),
        "augment": ([S("container", "c", sleaf("z")), S("augment", "/m:c", *sts)], "/m:c"), "augment-when": ([S("container", "c", sleaf("z")), S("augment", "/m:c", S("when", "w"), *sts)], "/m:c"),
        "input": ([S("rpc", "r", S("input", None, *sts), S("output", None, *sts))], "/m:r/m:input"), "notification": ([S("notification", "n", *sts)], "/m:n"),
    }


def deviation(ck, good):
    ts = targets()
    pl = list(places([]))
    for name, st in ts.items():
        for rnd, dvs in enumerate(deviations(name, st, "m:")):
            for pi, place in enumerate(pl):
                if ck.tier == "quick" and place not in ("top", "grouping") and (pi + rnd + len(name)) % 4:
                    continue
                if place in ("input", "notification") and any(s[0] == "config" for d in dvs for s in d[2]):
                    continue

                def t(x, name=name, dvs=dvs, place=place, rnd=rnd):
                    body, path = places(list(some(ck, name, rnd).values()))[place]
                    m = module("m", *pre(), *body)
                    d = module("d", imp("m"), imp("ext"), S("typedef", "dt", T("string"), S("default", "dtyped"), S("units", "dunits")), S("deviation", f"{path}/m:{name}", *dvs), sleaf("dz"))
                    run_check(x, [m, d, EXT], rule="deviation", label=f"deviation of {name} in {place}: {show_(dvs)}: ")
                lazily(ck, f"deviation/{name}/{rnd}/{place}", t, good)

    # two deviation statements, of one target and of different ones; a deviated augmented node; missing target; other parts of the tree
    def t(x):
        m = module("m", *pre(), S("grouping", "g", *ts.values()), S("container", "c", S("uses", "g")), S("container", "d", S("uses", "g")), S("rpc", "r", S("input", None, sleaf("i"))), S("notification", "n", sleaf("j")))
        a = module("a", imp("m"), *pre(), S("augment", "/m:c/m:c0", sleaf("x"), S("container", "z", sleaf("y"))))
        dv = lambda a, *s: S("deviate", a, *s)
        d = module("d", imp("m"), imp("a"), imp("ext"), S("deviation", "/m:c/m:l0", dv("add", S("default", "v1"))), S("deviation", "/m:d/m:l0", dv("add", S("units", "v2")), dv("add", S("mandatory", "true"))), S("deviation", "/m:c/m:l0", dv("add", S("units", "v3"))),
                   S("deviation", "/m:c/m:c0/a:x", dv("add", S("default", "v4"))), S("deviation", "/m:c/m:c0/a:z/a:y", dv("not-supported")), S("deviation", "/m:c/m:nowhere", dv("not-supported")), S("deviation", "/m:d/m:h0/m:hb/m:hb1", dv("not-supported")),
                   S("deviation", "/m:d/m:h0/m:ha", dv("not-supported")), S("deviation", "/m:d/m:t0/m:x", dv("replace", T("uint8"))), S("deviation", "/m:r", dv("not-supported")), S("deviation", "/m:n/m:j", dv("add", S("mandatory", "true"))), S("deviation", "/m:c/m:h1/m:hd/m:hd1", dv("add", S("must", "m:z"))))
        run_check(x, [m, a, d, EXT], rule="deviation", label="several deviations: ")
        run_check(x, [d, a, m, EXT], rule="deviation", label="several deviations, other order: ")
    lazily(ck, "deviation/several", t, good)


def augment(ck, good):
    """Augments add exactly their nodes, whatever else stands in the target."""
    ts = targets()
    for tgt, body in (("/m:c", [S("container", "c", sleaf("own"))]), ("/m:c/m:li", [S("container", "c", S("list", "li", S("key", "k"), sleaf("k"), S("unique", "own"), sleaf("own")))]), ("/m:ch", [S("choice", "ch", S("default", "own"), sleaf("own"), S("case", "oc"))]),
                      ("/m:ch/m:oc", [S("choice", "ch", sleaf("own"), S("case", "oc", sleaf("o2")))]), ("/m:r/m:output", [S("rpc", "r", S("output", None, sleaf("own")))]), ("/m:n", [S("notification", "n", sleaf("own"))]), ("/m:c/m:st", [S("container", "c", S("container", "st", S("config", "false"), S("presence", "p")))])):
        for who in ("m", "a"):
            for extra in ((), (S("when", "w"),), (S("status", "deprecated"),), (S("description", "ad"), S("reference", "r"), S("frob", "z", pref="ext"))):
                def t(x, tgt=tgt, body=body, who=who, extra=extra):
                    sts = [s for s in ts.values() if s[0] != "choice" and not any(z[0] == "config" for z in s[2])]
                    if not tgt.endswith("ch"):
                        sts = sts + [s for s in ts.values() if s[0] == "choice"]
                    aug = S("augment", tgt, *extra, *sts)
                    around = [S("container", "other", sleaf("own")), S("augment", "/m:other", sleaf("z", "string", S("default", "zz")))]
                    if who == "m":
                        ms = [module("m", *pre(), *body, *around, aug), EXT]
                    else:
                        ms = [module("a", *pre(imp("m")), aug), module("m", *pre(), *body, *around), EXT]
                    run_check(x, ms, rule="augment", label=f"augment of {tgt} by {who}{' with ' + extra[0][0] if extra else ''}: ")
                lazily(ck, f"augment/{tgt}/{who}/{extra[0][0] if extra else ''}", t, good)


def run(ck):
    ck.floor = 7 * 10 ** 5
    good = world(ck, "c19", lambda p: World(p, [module("m", sleaf("t"))]))
    refine(ck, good)
    deviation(ck, good)
    augment(ck, good)
    scopes.run_models(ck, good, ("refine", "augment", "deviation"), "scope")
