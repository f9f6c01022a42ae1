"""C18: features guard every statement and evaluate as boolean formulas.

(1) Every formula of a bounded grammar is put in the if-feature of a leaf; the
repository's code builds the model abstractly for every assignment of the
features, and the leaf must exist exactly where the formula is true.
(2) For every kind of statement that may carry if-feature, the model with a true
guard must equal the model without guard, and the model with a false guard the
model without the statement."""
import itertools
from .common import *
from .schema import dump, differences, describe
from .c28 import plain
from .c11 import L
from ..world import leaf as sleaf

NAMES = ["a", "b", "or-x", "notify", "android", "p:far"]


def formulas(tier):
    """(text, truth function of the set of supported names)."""
    A = lambda n: (n, lambda s: n in s)
    out = []

    def neg(f, paren=False, times=1):
        t, e = f
        return "not " * times + (f"({t})" if paren else t), (lambda s: e(s) == (times % 2 == 0))

    def op(o, f, g, sp=" "):
        (t, e), (u, h) = f, g
        return t + sp + o + sp + u, (lambda s: e(s) and h(s)) if o == "and" else (lambda s: e(s) or h(s))
    par = lambda f, i="": (f"({i}{f[0]}{i})", f[1])
    lits = [A(n) for n in NAMES] + [neg(A(n)) for n in NAMES]
    out += lits + [neg(A(n), False, k) for n in ("a", "notify") for k in (2, 3)] + [neg(A("a"), True), neg(neg(A("a")), True), par(par(A("a")), " ")]
    two = [op(o, f, g) for o in ("and", "or") for f in lits for g in lits if f[0].split()[-1] != g[0].split()[-1]]
    out += two if tier != "quick" else two[::2] + two[1::7]
    x, y, z = A("a"), A("b"), A("notify")
    for nx, ny, nz in itertools.product((0, 1), repeat=3):
        fs = [neg(f) if k else f for f, k in ((x, nx), (y, ny), (z, nz))]
        for o1, o2 in itertools.product(("and", "or"), repeat=2):
            X, Y, Z = fs
            # no parentheses: and binds tighter
            if o1 == "or" and o2 == "and":
                v = op("or", X, op("and", Y, Z))
            else:
                v = op(o2, op(o1, X, Y), Z)
            out.append(v)
            out.append(op(o2, par(op(o1, X, Y)), Z))
            out.append(op(o1, X, par(op(o2, Y, Z))))
            out.append(op(o1, X, neg(op(o2, Y, Z), True)))
            out.append(neg(op(o2, neg(op(o1, X, Y), True), Z), True))
    w = A("android")
    for o1, o2, o3 in itertools.product(("and", "or"), repeat=3):
        t = " ".join(("a", o1, "b", o2, "notify", o3, "android"))
        def ev(s, ops=(o1, o2, o3)):
            vals = [n in s for n in ("a", "b", "notify", "android")]
            groups, cur = [], [vals[0]]
            for o, v in zip(ops, vals[1:]):
                if o == "and":
                    cur.append(v)
                else:
                    groups.append(cur)
                    cur = [v]
            return any(all(g) for g in groups + [cur])
        out.append((t, ev))
    ws = [("a   and\tb", op("and", x, y)[1]), ("a\n  or\n  b", op("or", x, y)[1]), (" a", x[1]), ("a ", x[1]), ("not\n a", neg(x)[1]), ("( a and b )", op("and", x, y)[1]), ("(\n a or b) and notify", op("and", par(op("or", x, y)), z)[1])]
    return out + ws


BAD = ["", "a b", "a and", "or a", "(a", "a)", "a and and b", "a or or b", "()", "a andb", "a orb", "not", "a & b", "not (a", "a and (b or", "1a", "a,b", "(a) b", "a or", "a and )"]
BAD.remove("not")       # might be the name of a feature


def base(*subs):
    feats = [S("feature", n) for n in NAMES if ":" not in n]
    return [module("m", S("import", "p", S("prefix", "p")), *feats, *subs), module("p", S("feature", "far"), S("feature", "a"))]


def library(s):
    return {"m": {"feature": sorted(n for n in s if ":" not in n)}, "p": {"feature": ["far"] if "p:far" in s else [], "conformance-type": "import"}}


def evaluation(ck):
    fs = formulas(ck.tier)
    groups = [fs[i:i + 60] for i in range(0, len(fs), 60)]
    asg = [frozenset(c) for k in range(len(NAMES) + 1) for c in itertools.combinations(NAMES, k)]
    for gi, g in enumerate(groups):
        used = [a for a in asg]
        if ck.tier == "quick":
            used = [a for a in asg if (len(a) + hash_(a) + gi) % 4 == 0 or len(a) in (0, 6)]
        for a in used:
            nm = "+".join(sorted(a)) or "none"

            def make(p, g=g, a=a):
                return World(p, base(S("container", "c", *[sleaf(f"l{i}", "string", S("if-feature", t)) for i, (t, e) in enumerate(g)])), library(a))

            def t(x, g=g, a=a):
                d = dump(x, x.I.force(x.attr(x.sc.dm, "schema")))
                for i, (tx, e) in enumerate(g):
                    got = f"/m:c/m:l{i}" in d
                    x.expect(got == bool(e(a)), "formula", "FeatureExprParser", f"if-feature \"{tx}\" with features {{{', '.join(sorted(a))}}} is {'true' if got else 'false'}")
            lazy(ck, f"formula/{gi}/{nm}", make, t)


def hash_(a):
    return sum(ord(c) for n in sorted(a) for c in n)


def lazy(ck, name, make, t):
    """A scenario whose world is built only by the worker running it."""
    if (ck.scenarios + 1) % ck.part[1] != ck.part[0]:
        ck.scenarios += 1
        return
    ck.scenario(name, t, make(ck.p))


def outcome(x, w):
    """'ok' or the name of the exception with which the model is rejected."""
    try:
        w.prepare()
        return "ok"
    except ModelRejected as e:
        return str(e)


from ..world import ModelRejected


def malformed(ck):
    good = world(ck, "c18-good", lambda p: World(p, base(sleaf("t")), library(())))
    for tx in BAD:
        def t(x, tx=tx):
            w = World(x.p, base(sleaf("t", "string", S("if-feature", tx))), library(NAMES))
            r = outcome(x, w)
            x.expect(any(n in r for n in ("InvalidFeatureExpression", "UnexpectedInput", "EndOfInput")), "malformed", "FeatureExprParser", f"if-feature \"{tx}\": {r}")
        ck.scenario("malformed/" + (tx or "empty"), t, good)
    for tx, exc in (("zz:a", "UnknownPrefix"), ("a or zz:b", "UnknownPrefix"), ("a and zz:b", "UnknownPrefix"), ("not zz:b", "UnknownPrefix")):
        def t(x, tx=tx, exc=exc):
            r = outcome(x, World(x.p, base(sleaf("t", "string", S("if-feature", tx))), library(NAMES)))
            x.expect(exc in r, "unknown-prefix", "FeatureExprParser", f"if-feature \"{tx}\": {r}")
        ck.scenario("malformed/" + tx, t, good)


# ---- guards: builder(list of guard statements, or None for "statement absent") -> modules ----
def opt(present, st):
    return [st] if present else []


def inc(kw, arg, *subs):
    """The statement in a container."""
    return lambda g: [S("container", "c", sleaf("other"), *([] if g is None else [S(kw, arg, *subs, *g)]), sleaf("last"))]


def top(kw, arg, *subs):
    return lambda g: [sleaf("other"), *([] if g is None else [S(kw, arg, *subs, *g)])]


T = lambda n, *s: S("type", n, *s)
GUARDED = {
    "container": inc("container", "x", sleaf("y")), "leaf": inc("leaf", "x", T("string"), S("default", "d")), "leaf-mandatory": inc("leaf", "x", T("string"), S("mandatory", "true")),
    "leaf-list": inc("leaf-list", "x", T("string"), S("min-elements", "1")), "list": inc("list", "x", S("key", "k"), sleaf("k")), "choice": inc("choice", "x", sleaf("y"), sleaf("z")),
    "anydata": inc("anydata", "x"), "anyxml": inc("anyxml", "x"), "action": inc("action", "x", S("input", None, sleaf("i"))), "notification-in": inc("notification", "x", sleaf("i")),
    "top-container": top("container", "x", sleaf("y")), "top-leaf": top("leaf", "x", T("string")), "top-list": top("list", "x", S("key", "k"), sleaf("k")), "rpc": top("rpc", "x", S("input", None, sleaf("i"))),
    "notification": top("notification", "x", sleaf("i")), "top-choice": top("choice", "x", sleaf("y"), sleaf("z")), "top-anydata": top("anydata", "x"),
    "identity": lambda g: [S("identity", "b"), *([] if g is None else [S("identity", "x", S("base", "b"), *g)]), sleaf("i", T("identityref", S("base", "b")))],
    "case": lambda g: [S("choice", "ch", sleaf("o"), *([] if g is None else [S("case", "x", sleaf("y"), *g)]))],
    "short-leaf": lambda g: [S("choice", "ch", sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)]))],
    "short-container": lambda g: [S("choice", "ch", *([] if g is None else [S("container", "x", sleaf("y"), *g)]), sleaf("o"))],
    "short-leaf-list": lambda g: [S("choice", "ch", *([] if g is None else [S("leaf-list", "x", T("string"), *g)]), sleaf("o"))],
    "short-list": lambda g: [S("choice", "ch", *([] if g is None else [S("list", "x", S("key", "k"), sleaf("k"), *g)]), sleaf("o"))],
    "short-choice": lambda g: [S("choice", "ch", *([] if g is None else [S("choice", "x", sleaf("y"), *g)]), sleaf("o"))],
    "short-anydata": lambda g: [S("choice", "ch", *([] if g is None else [S("anydata", "x", *g)]), sleaf("o"))],
    "leaf-in-case": lambda g: [S("choice", "ch", S("case", "k", sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)])))],
    "leaf-in-list": lambda g: [S("list", "l", S("key", "k"), sleaf("k"), *([] if g is None else [S("leaf", "x", T("string"), *g)]))],
    "leaf-in-input": lambda g: [S("rpc", "r", S("input", None, sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)])))],
    "leaf-in-output": lambda g: [S("rpc", "r", S("output", None, sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)])))],
    "leaf-in-notification": lambda g: [S("notification", "n", sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)]))],
    "uses": lambda g: [S("grouping", "gr", sleaf("x"), S("container", "y", sleaf("z"))), S("container", "c", sleaf("o"), *([] if g is None else [S("uses", "gr", *g)]))],
    "uses-when": lambda g: [S("grouping", "gr", sleaf("x")), S("container", "c", sleaf("o"), *([] if g is None else [S("uses", "gr", S("when", "o"), *g)]))],
    "uses-top": lambda g: [S("grouping", "gr", sleaf("x")), sleaf("o"), *([] if g is None else [S("uses", "gr", *g)])],
    "uses-in-choice": lambda g: [S("grouping", "gr", S("case", "x", sleaf("y"))), S("choice", "ch", sleaf("o"), *([] if g is None else [S("uses", "gr", *g)]))] if False else [S("grouping", "gr", sleaf("x")), S("choice", "ch", S("case", "k", sleaf("o"), *([] if g is None else [S("uses", "gr", *g)])))],
    "uses-nested": lambda g: [S("grouping", "g1", sleaf("x")), S("grouping", "g2", sleaf("y"), *([] if g is None else [S("uses", "g1", *g)])), S("container", "c", S("uses", "g2"))],
    "in-grouping": lambda g: [S("grouping", "gr", sleaf("o"), *([] if g is None else [S("leaf", "x", T("string"), *g)])), S("container", "c", S("uses", "gr")), S("container", "d", S("uses", "gr"))],
    "augment": lambda g: [S("container", "c", sleaf("o")), *([] if g is None else [S("augment", "/m:c", sleaf("x"), S("container", "y", sleaf("z")), *g)])],
    "augment-when": lambda g: [S("container", "c", sleaf("o")), *([] if g is None else [S("augment", "/m:c", S("when", "o"), sleaf("x"), *g)])],
    "augment-choice": lambda g: [S("choice", "ch", sleaf("o")), *([] if g is None else [S("augment", "/m:ch", S("case", "x", sleaf("y")), *g)])],
    "augment-in-uses": lambda g: [S("grouping", "gr", S("container", "i", sleaf("o"))), S("container", "c", S("uses", "gr", *([] if g is None else [S("augment", "i", sleaf("x"), *g)])))],
    "leaf-in-augment": lambda g: [S("container", "c", sleaf("o")), S("augment", "/m:c", sleaf("z"), *([] if g is None else [S("leaf", "x", T("string"), *g)]))],
    "case-in-augment": lambda g: [S("choice", "ch", sleaf("o")), S("augment", "/m:ch", S("case", "z", sleaf("z1")), *([] if g is None else [S("case", "x", sleaf("y"), *g)]))],
    "short-in-augment-when": lambda g: [S("leaf", "w", T("string")), S("choice", "ch", sleaf("o")), S("augment", "/m:ch", S("when", "w"), sleaf("z"), *([] if g is None else [S("leaf", "x", T("string"), *g)]))],
    "enum": lambda g: [sleaf("e", T("enumeration", S("enum", "o"), *([] if g is None else [S("enum", "x", *g)])))],
    "enum-value": lambda g: [sleaf("e", T("enumeration", S("enum", "o"), *([] if g is None else [S("enum", "x", S("value", "7"), *g)])))],
    "bit": lambda g: [sleaf("e", T("bits", S("bit", "o"), *([] if g is None else [S("bit", "x", *g)])))],
    "bit-position": lambda g: [sleaf("e", T("bits", S("bit", "o"), *([] if g is None else [S("bit", "x", S("position", "7"), *g)])))],
    "enum-typedef": lambda g: [S("typedef", "t", T("enumeration", S("enum", "o"), *([] if g is None else [S("enum", "x", *g)]))), sleaf("e", "t"), S("leaf-list", "el", T("t"))],
    "bit-typedef": lambda g: [S("typedef", "t", T("bits", S("bit", "o"), *([] if g is None else [S("bit", "x", *g)]))), sleaf("e", "t")],
    "enum-restricted": lambda g: [S("typedef", "t", T("enumeration", S("enum", "o"), S("enum", "x"))), sleaf("e", T("t", S("enum", "o"), *([] if g is None else [S("enum", "x", *g)])))],
    "bit-restricted": lambda g: [S("typedef", "t", T("bits", S("bit", "o"), S("bit", "x"))), sleaf("e", T("t", S("bit", "o"), *([] if g is None else [S("bit", "x", *g)])))],
    "enum-in-union": lambda g: [sleaf("e", T("union", T("uint8"), T("enumeration", S("enum", "o"), *([] if g is None else [S("enum", "x", *g)]))))],
}
# refine removes its target
REFINED = {
    "leaf": ("x", S("leaf", "x", T("string"))), "leaf-mandatory": ("x", S("leaf", "x", T("string"), S("mandatory", "true"))), "leaf-list": ("x", S("leaf-list", "x", T("string"))), "list": ("x", S("list", "x", S("key", "k"), sleaf("k"))),
    "container": ("x", S("container", "x", sleaf("y"))), "choice": ("x", S("choice", "x", sleaf("y"))), "case": ("q/x", S("choice", "q", sleaf("p"), S("case", "x", sleaf("y")))),
    "anydata": ("x", S("anydata", "x")), "inner": ("q/x", S("container", "q", sleaf("p"), sleaf("x"))),
}


def without(st, path):
    """The statement without the node at the relative path, None if it is that node."""
    if path == st[1]:
        return None
    if not path.startswith(st[1] + "/"):
        return st
    rest = path[len(st[1]) + 1:]
    subs = [z for z in (without(s, rest) if s[0] in ("leaf", "container", "case", "list", "leaf-list", "choice") else s for s in st[2]) if z]
    return (st[0], st[1], tuple(subs), st[3])


def refined(kind):
    path, st = REFINED[kind]

    def f(g):
        if g is None:
            s = without(st, path)
            return [S("grouping", "gr", sleaf("o"), *([s] if s else [])), S("container", "c", S("uses", "gr"))]
        return [S("grouping", "gr", sleaf("o"), st), S("container", "c", S("uses", "gr", *([S("refine", path, *g)] if g else [])))]
    return f


def full(x, w):
    """Schema tree, identity graph of a world."""
    w.prepare()
    sc = w.scene(x.I)
    d = dump(x, x.I.force(x.attr(sc.dm, "schema")))
    for p in [p for p, n in d.items() if n["#class"] == "CaseNode" and not n["#children"]]:
        del d[p]            # an empty case is no case
        par = d[p.rsplit("/", 1)[0]]
        par["#children"] = tuple(c for c in par["#children"] if c != p.rsplit("/", 1)[1])
    sd = x.I.force(x.attr(sc.dm, "schema_data"))
    ident = describe(x, x.I.force(x.attr(sd, "identity_adjs")))
    d["identities"] = {"adjacency": tuple(sorted(map(repr, ident[1:])))}
    return d


ON, OFF = [[S("if-feature", "a")], [S("if-feature", "b"), S("if-feature", "a")], [S("if-feature", "b and a")], [S("if-feature", "p:far")], [S("if-feature", "not notify")]], \
          [[S("if-feature", "notify")], [S("if-feature", "a"), S("if-feature", "notify")], [S("if-feature", "notify"), S("if-feature", "a")], [S("if-feature", "not a")], [S("if-feature", "p:a")], [S("if-feature", "a and notify")], [S("if-feature", "p:far and notify")]]
SUP = {"a", "b", "p:far"}


def guards(ck):
    good = world(ck, "c18-good", lambda p: World(p, base(sleaf("t")), library(())))
    builders = [(k, f) for k, f in GUARDED.items()] + [("refine-" + k, refined(k)) for k in REFINED]
    for kind, f in builders:
        def t(x, kind=kind, f=f):
            mk = lambda g: full(x, World(x.p, base(*f(g)), library(SUP)))
            try:
                plain_, absent = mk([]), mk(None)
                assert differences(plain_, absent), kind
                for g in ON:
                    df = differences(mk(g), plain_)
                    x.expect(not df, "true-guard", kind, f"{kind} statement with true {text(g)} is compiled differently from the unguarded one: {short(df)}")
                for g in OFF:
                    df = differences(mk(g), absent)
                    x.expect(not df, "false-guard", kind, f"{kind} statement with false {text(g)} still has an effect: {short(df)}")
            except ModelRejected as e:
                x.expect(False, "valid-model-accepted", kind, f"model with guarded {kind} is rejected: {e}", e.loc)
        ck.scenario("guard/" + kind, t, good, max_paths=3)


def text(g):
    return " and ".join("if-feature '" + s[1] + "'" for s in g)


def short(df):
    return "; ".join(f"{p} {f}: {str(a)[:60]} / {str(b)[:60]}" for p, f, a, b in df[:2]).replace("'", "")


def contexts(ck):
    """Feature names are resolved in the module whose text contains them."""
    good = world(ck, "c18-good", lambda p: World(p, base(sleaf("t")), library(())))
    imp = lambda n, p=None: S("import", n, S("prefix", p or n))
    for on in itertools.product((0, 1), repeat=2):
        m_on, g_on = on
        lib = {"m": {"feature": ["f"] if m_on else []}, "g": {"feature": ["f"] if g_on else []}}

        def t(x, lib=lib, m_on=m_on, g_on=g_on):
            g = module("g", S("feature", "f"), S("grouping", "gr", sleaf("gx", "string", S("if-feature", "f")), sleaf("gy", "string", S("if-feature", "g:f"))),
                       S("typedef", "t", T("enumeration", S("enum", "o"), S("enum", "x", S("if-feature", "f")))), S("identity", "b"), S("identity", "d", S("base", "b"), S("if-feature", "f")), S("container", "gc", sleaf("go")))
            m = module("m", imp("g", "q"), S("feature", "f"), S("container", "c", S("uses", "q:gr"), sleaf("own", "string", S("if-feature", "f")), sleaf("theirs", "string", S("if-feature", "q:f")), sleaf("e", "q:t"),
                                                              sleaf("i", T("identityref", S("base", "q:b")))),
                       S("augment", "/q:gc", sleaf("ax", "string", S("if-feature", "f")), S("if-feature", "q:f")))
            w = World(x.p, [m, g], lib)
            w.prepare()
            sc = w.scene(x.I)
            d = dump(x, x.I.force(x.attr(sc.dm, "schema")))
            for nm, want in (("gx", g_on), ("gy", g_on), ("own", m_on), ("theirs", g_on)):
                x.expect((f"/m:c/m:{nm}" in d) == bool(want), "feature-context", "SchemaData.if_features", f"leaf {nm} is {'absent' if want else 'present'} with f supported in {'m ' if m_on else ''}{'g' if g_on else ''}")
            x.expect(("/g:gc/m:ax" in d) == bool(m_on and g_on), "feature-context", "SchemaData.if_features", f"augmenting leaf is {'present' if '/g:gc/m:ax' in d else 'absent'} with f supported in {'m ' if m_on else ''}{'g' if g_on else ''}")
            for nm, v in (("e", "x"), ("i", "g:d")):
                def go():
                    root = x.call(sc.dm, "from_raw", L({"m:c": {nm: v}}))
                    x.call(root, "validate")
                    return NONE
                r = x.attempt(go)
                x.expect((r[0] == "ok") == bool(g_on), "feature-context", "SchemaData.if_features", f"{nm} value {v}: {r[1] if r[0] != 'ok' else 'accepted'} with f supported in {'m ' if m_on else ''}{'g' if g_on else ''}")
        ck.scenario(f"context/{m_on}{g_on}", t, good)
    for on in (0, 1):
        def t(x, on=on):
            sub = S("submodule", "s", S("belongs-to", "m", S("prefix", "mm")), S("revision", "2020-01-01"), S("container", "sc", sleaf("sx", "string", S("if-feature", "f")), sleaf("sy", "string", S("if-feature", "mm:f")), sleaf("sz", "string", S("if-feature", "not sf"))),
                    S("feature", "sf"))
            m = module("m", S("include", "s"), S("feature", "f"), S("container", "c", sleaf("x", "string", S("if-feature", "sf"))))
            w = World(x.p, [m], {"m": {"feature": ["f", "sf"] if on else [], "submodule": [{"name": "s", "revision": "2020-01-01"}]}}, [sub])
            w.prepare()
            d = dump(x, x.I.force(x.attr(w.scene(x.I).dm, "schema")))
            for p, want in (("/m:sc/m:sx", on), ("/m:sc/m:sy", on), ("/m:sc/m:sz", not on), ("/m:c/m:x", on)):
                x.expect((p in d) == bool(want), "feature-context", "SchemaData.if_features", f"{p} is {'absent' if want else 'present'} with features of main and submodule {'on' if on else 'off'}")
        ck.scenario(f"submodule/{on}", t, good)


def prerequisites(ck):
    """A supported feature whose own if-feature is false is reported."""
    good = world(ck, "c18-good", lambda p: World(p, base(sleaf("t")), library(())))
    F = ["f", "g", "h"]
    for k in range(4):
        for sup in itertools.combinations(F, k):
            for far in (0, 1):
                def t(x, sup=sup, far=far):
                    m = module("m", S("import", "p", S("prefix", "p")), S("feature", "f", S("if-feature", "g or not h")), S("feature", "g"), S("feature", "h", S("if-feature", "p:far"), S("if-feature", "p:far or f")), sleaf("t"))
                    r = outcome(x, World(x.p, [m, module("p", S("feature", "far"))], {"m": {"feature": list(sup)}, "p": {"feature": ["far"] if far else []}}))
                    ok = not ("f" in sup and not ("g" in sup or "h" not in sup)) and not ("h" in sup and not far)
                    x.expect(r == "ok" if ok else "FeaturePrerequisiteError" in r, "prerequisite", "SchemaData._check_feature_dependences", f"features {','.join(sup)}{' p:far' if far else ''}: {r}")
                ck.scenario(f"prerequisite/{''.join(sup)}/{far}", t, good)


def annotations(ck):
    good = world(ck, "c18-good", lambda p: World(p, base(sleaf("t")), library(())))
    for g, on in [(g, 1) for g in ON] + [(g, 0) for g in OFF]:
        def t(x, g=g, on=on):
            ms = base(S("import", "ietf-yang-metadata", S("prefix", "md")), S("annotation", "an", T("string"), *g, pref="md"), sleaf("t")) + [module("ietf-yang-metadata", prefix="md")]
            w = World(x.p, ms, library(SUP))
            w.prepare()
            sc = w.scene(x.I)

            def go():
                x.call(x.call(sc.dm, "from_raw", L({"m:t": "x", "@m:t": {"m:an": "v"}})), "validate")
                return NONE
            r = x.attempt(go)
            x.expect((r[0] == "ok") == bool(on), "annotation", "SchemaTreeNode._annotation_stmt", f"annotation with {text(g)}: {r[1] if r[0] != 'ok' else 'accepted'}")
        ck.scenario("annotation/" + text(g), t, good)


def run(ck):
    ck.floor = 3000
    evaluation(ck)
    malformed(ck)
    guards(ck)
    contexts(ck)
    prerequisites(ck)
    annotations(ck)
