"""C21: identity derivation is the transitive closure of base statements.

All acyclic graphs on four identities, with the identities of a graph spread
over modules, a submodule and an import-only module and declared in several
orders, are compiled abstractly; every query about every pair is compared with
the closure."""
import itertools
from .common import *
from ..world import leaf as sleaf
from .refcmp import plain
from .c19 import digest_value, lazily
from .xp import parse
from ..refschema import Ref, digest

T = lambda n, *s: S("type", n, *s)
EDGES = [(i, j) for i in range(4) for j in range(i)]
GRAPHS = [[e for k, e in enumerate(EDGES) if g >> k & 1] for g in range(64)]
# text of each identity of a graph; bases come first
PLACES = {"one": "mmmm", "spread": "onms", "import-only-chain": "oonm", "two": "nnmm", "middle": "onnm", "submodule": "nsms", "sub-first": "smsm", "import-only-top": "ooom"}
MODULE = {"m": "m", "s": "m", "n": "n", "o": "o"}


def name(g, i): return f"g{g}n{i}"


def closure(edges):
    d = {(i, j) for i, j in edges}
    while True:
        more = {(i, l) for i, j in d for k, l in d if j == k} - d
        if not more:
            return d
        d |= more


def texts(place, order, graphs, leaves=()):
    P = PLACES[place]
    ids = {t: [] for t in "msno"}
    for g in graphs:
        for i in range(4):
            bases = [j for a, j in GRAPHS[g] if a == i]
            if order == "reverse":
                bases = bases[::-1]
            # another module under its prefix, the own one with or without it
            pre = lambda j: ("" if (g + j) % 2 else "own:") if MODULE[P[j]] == MODULE[P[i]] else "p" + P[j] + ":"
            ids[P[i]].append(S("identity", name(g, i), *[S("base", pre(j) + name(g, j)) for j in bases], *([S("description", "d")] if g % 3 else [])))
    for t in ids:
        if order == "reverse":
            ids[t].reverse()
        elif order == "mixed":
            ids[t] = ids[t][1::2] + ids[t][::2]
    imp = lambda *ts: [S("import", t, S("prefix", "p" + t)) for t in ts]
    m = module("m", S("include", "ms"), *imp("n", "o"), *ids["m"], *leaves, prefix="own")
    sub = S("submodule", "ms", S("belongs-to", "m", S("prefix", "own")), S("revision", "2020-01-01"), *imp("n", "o"), *ids["s"])
    return [m, module("n", *imp("o"), *ids["n"], prefix="own"), module("o", *ids["o"], prefix="own")], sub


def compiled(x, mods, sub):
    lib = {m[1]: {} for m in mods}
    lib["m"]["submodule"] = [{"name": "ms", "revision": "2020-01-01"}]
    lib["o"]["conformance-type"] = "import"
    w = World(x.p, mods, lib, [sub])
    w.prepare()
    return w.scene(x.I)


def qn(P, g, i):
    return Lst("tuple", [K(name(g, i)), K(MODULE[P[i]])])


def queries(ck, good):
    for place, order in itertools.product(PLACES, ("forward", "reverse", "mixed")):
        if ck.tier == "quick" and order == "mixed" and place not in ("one", "spread"):
            continue

        def t(x, place=place, order=order):
            P = PLACES[place]
            sc = compiled(x, *texts(place, order, range(64)))
            sd = x.attr(sc.dm, "schema_data")
            for rnd in range(2):
                for g, edges in enumerate(GRAPHS):
                    d = closure(edges)
                    desc = "identities " + (", ".join(f"{name(g, i)} based on {name(g, j)}" for i, j in edges) or "without base") + f" ({place}): "
                    for i, j in itertools.product(range(4), repeat=2):
                        got = x.I.truth(x.call(sd, "is_derived_from", qn(P, g, i), qn(P, g, j)))
                        x.expect(got == ((i, j) in d), "is_derived_from", "SchemaData.is_derived_from", f"{desc}{name(g, i)} is {'' if got else 'not '}derived from {name(g, j)}")
                        other = (g + 1 + i) % 64
                        got = x.I.truth(x.call(sd, "is_derived_from", qn(P, g, i), qn(P, other, j)))
                        x.expect(not got, "is_derived_from", "SchemaData.is_derived_from", f"{desc}{name(g, i)} is derived from {name(other, j)}, with which it has nothing to do")
                    below = {j: {(name(g, i), MODULE[P[i]]) for i, b in d if b == j} for j in range(4)}
                    for j in range(4):
                        got = {plain(x, e) for e in seq(x.I, x.call(sd, "derived_from", qn(P, g, j)))}
                        x.expect(got == below[j], "derived_from", "SchemaData.derived_from", f"{desc}identities derived from {name(g, j)} are {fmt(got)}, expected {fmt(below[j])}")
                    for js in [c for n in (1, 2, 3) for c in itertools.permutations(range(4), n) if n < 3 or c == tuple(sorted(c))]:
                        if rnd and len(js) > 1:
                            continue
                        want = set.intersection(*[below[j] for j in js])
                        got = {plain(x, e) for e in seq(x.I, x.call(sd, "derived_from_all", Lst("list", [qn(P, g, j) for j in js])))}
                        x.expect(got == want, "derived_from_all", "SchemaData.derived_from_all", f"{desc}identities derived from all of {[name(g, j) for j in js]} are {fmt(got)}, expected {fmt(want)}".replace("'", ""))
            # names that are no identities
            nobody = Lst("tuple", [K("nobody"), K("m")])
            wrong = Lst("tuple", [K(name(63, 3)), K("n" if P[3] != "n" else "m")])
            for q in (nobody, wrong):
                x.expect(not x.I.truth(x.call(sd, "is_derived_from", q, qn(P, 63, 0))), "is_derived_from", "SchemaData.is_derived_from", "an undefined identity is derived from a defined one")
                x.expect(not x.I.truth(x.call(sd, "is_derived_from", qn(P, 63, 3), q)), "is_derived_from", "SchemaData.is_derived_from", "an identity is derived from an undefined one")
                x.expect(not seq(x.I, x.call(sd, "derived_from", q)), "derived_from", "SchemaData.derived_from", "something is derived from an undefined identity")
            x.expect(not seq(x.I, x.call(sd, "derived_from_all", Lst("list", []))), "derived_from_all", "SchemaData.derived_from_all", "identities are derived from all of no identities")
        lazily(ck, f"queries/{place}/{order}", t, good)


def fmt(s):
    return "{" + ", ".join(f"{m}:{n}" for n, m in sorted(s)) + "}"


BASES = [(0,), (1,), (0, 1), (1, 0), (1, 2), (0, 1, 2)]


def references(ck, good):
    """Leaves with one or more bases and the XPath functions."""
    for place in PLACES if ck.tier != "quick" else ("one", "spread", "import-only-chain", "submodule"):
        def t(x, place=place):
            P = PLACES[place]
            graphs = range(64) if ck.tier != "quick" else [g for g in range(64) if g % 3 == len(place) % 3 or g == 63]
            leaves = []
            for g in graphs:
                pre = lambda j: "own:" if MODULE[P[j]] == "m" else "p" + P[j] + ":"
                for b, bs in enumerate(BASES):
                    leaves.append(sleaf(f"l{g}-{b}", T("identityref", *[S("base", pre(j) + name(g, j)) for j in bs])))
                leaves.append(S("leaf-list", f"u{g}", T("union", T("uint8"), T("identityref", S("base", pre(1) + name(g, 1))), T("identityref", S("base", pre(2) + name(g, 2))))))
            mods, sub = texts(place, "mixed", graphs, leaves)
            sc = compiled(x, mods, sub)
            ref = Ref(mods, [sub], {}, (), ["m", "n"])
            mid = Lst("tuple", [K("m"), K("2020-01-01")])
            sctx = x.I.instantiate(x.p.cls("SchemaContext"), [x.attr(sc.dm, "schema_data"), K("m"), mid], {})
            parsed = {}
            dig = digest_value(x, sc)["children"]
            for g in graphs:
                d = closure(GRAPHS[g])
                ok = lambda i, j: (i, j) in d and P[i] != "o"
                desc = "identities " + (", ".join(f"{name(g, i)} based on {name(g, j)}" for i, j in GRAPHS[g]) or "without base") + f" ({place}): "
                for b, bs in enumerate(BASES):
                    node = sc.node(f"l{g}-{b}")
                    for i in range(4):
                        got = x.I.truth(x.call(x.attr(node, "type"), "__contains__", qn(P, g, i)))
                        want = all(ok(i, j) for j in bs)
                        x.expect(got == want, "identityref", "IdentityrefType.__contains__", f"{desc}an identityref with bases {[name(g, j) for j in bs]} {'accepts' if got else 'rejects'} {name(g, i)}".replace("'", ""))
                    want = sorted([name(g, i), MODULE[P[i]]] for i in range(4) if all(ok(i, j) for j in bs))
                    got = sorted(list(e) for e in dig[f"m:l{g}-{b}"]["type"]["identities"])
                    x.expect(got == want, "identityref-digest", "IdentityrefType._type_digest", f"{desc}the digest of an identityref with bases {[name(g, j) for j in bs]} lists {got}, expected {want}".replace("'", ""))
                for i in range(4):
                    got = x.I.truth(x.call(x.attr(sc.node(f"u{g}"), "type"), "__contains__", qn(P, g, i)))
                    x.expect(got == (ok(i, 1) or ok(i, 2)), "identityref-union", "UnionType.__contains__", f"{desc}a union of identityrefs with bases {name(g, 1)} and {name(g, 2)} {'accepts' if got else 'rejects'} {name(g, i)}")
                if g % 7 and ck.tier == "quick":
                    continue
                for i in range(4):
                    root = sc.root(sc.objd({f"m:l{g}-0": qn(P, g, i)}))
                    n = x.I.getitem(root, K(f"m:l{g}-0"))
                    for j in range(4):
                        pre = "" if MODULE[P[j]] == "m" else "p" + P[j] + ":"
                        for fn, want in (("derived-from", (i, j) in d), ("derived-from-or-self", (i, j) in d or i == j)):
                            e, _ = parse(x, f"{fn}(., '{pre}{name(g, j)}')", sctx)
                            got = x.I.truth(x.call(e, "evaluate", n))
                            x.expect(got == want, "xpath", "FuncDerivedFrom._eval", f"{desc}{fn}({name(g, i)}, {name(g, j)}) is {str(got).lower()}")
        lazily(ck, f"references/{place}", t, good)


def features(ck, good):
    """Identities with an unsupported feature do not exist."""
    def t(x):
        m = module("m", S("import", "n", S("prefix", "n")), S("feature", "on"), S("feature", "off"), S("identity", "b"), S("identity", "x", S("if-feature", "off"), S("base", "b")), S("identity", "y", S("if-feature", "on"), S("base", "b")),
                   S("identity", "z", S("base", "b"), S("base", "n:nb")), S("identity", "w", S("if-feature", "n:off"), S("base", "n:nb")), sleaf("l", T("identityref", S("base", "b"))))
        n = module("n", S("feature", "off"), S("identity", "nb"))
        w = World(x.p, [m, n], {"m": {"feature": ["on"]}, "n": {}})
        w.prepare()
        sc = w.scene(x.I)
        sd = x.attr(sc.dm, "schema_data")
        q = lambda n_, m_="m": Lst("tuple", [K(n_), K(m_)])
        for i, b, want in (("x", q("b"), False), ("y", q("b"), True), ("z", q("b"), True), ("z", q("nb", "n"), True), ("w", q("nb", "n"), False)):
            got = x.I.truth(x.call(sd, "is_derived_from", q(i), b))
            x.expect(got == want, "feature", "SchemaNode._identity_stmt", f"identity {i} is {'' if got else 'not '}derived from its base although its feature is {'on' if want else 'off'}")
        got = {plain(x, e) for e in seq(x.I, x.call(sd, "derived_from", q("b")))}
        x.expect(got == {("y", "m"), ("z", "m")}, "feature", "SchemaData.derived_from", f"identities derived from b are {fmt(got)}")
        for i, want in (("x", False), ("y", True), ("z", True), ("b", False)):
            got = x.I.truth(x.call(x.attr(sc.node("l"), "type"), "__contains__", q(i)))
            x.expect(got == want, "feature", "IdentityrefType.__contains__", f"identityref {'accepts' if got else 'rejects'} {i}")
    lazily(ck, "features", t, good)


def run(ck):
    ck.floor = 50000
    good = world(ck, "c19", lambda p: World(p, [module("m", sleaf("t"))]))
    queries(ck, good)
    references(ck, good)
    features(ck, good)
