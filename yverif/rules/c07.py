"""C07: keys, uniqueness and cardinality of lists and leaf-lists.

Entries hold uninterpreted values; every pattern of equal, different and absent
values over up to three entries, and every count against every pair of bounds,
is decided by abstract interpretation of the validation code and compared with
RFC 7950."""
import itertools
from .common import *
from ..spec import *
from .c05 import enum, build, val

MAXN = 4


def judge(x, root, bad, cons, what, names=("SemanticError",), scopes=("semantics", "all")):
    for scope in scopes:
        r = x.attempt(lambda: x.call(root, "validate", enum(x, "ValidationScope", scope), enum(x, "ContentType", "all")))
        if bad:
            x.expect(r[0] == "raise", "violation-rejected", cons, f"{what} passes {scope} validation although {bad}")
            if r[0] == "raise":
                x.expect(r[1] in names, "documented-error", cons, f"{what}: {r[1]} instead of {'/'.join(names)}", x.last.loc)
        else:
            x.expect(r[0] == "ok", "valid-accepted", cons, f"{what} is valid but {r[1]} is raised", x.last.loc if r[0] == "raise" else None)


def tok(sc, name):
    return sc.token(name)


def place(sc, v, where):
    """Root instance with the list value at one of several positions."""
    if where == "top":
        return sc.objd({"m:l": v})
    if where == "c":
        return sc.objd({"m:c": sc.objd({"l": v})})
    return sc.objd({"m:o": sc.arr(sc.objd({"k": K("first"), "l": sc.arr(sc.objd({"k": K("z")})) if where == "o" else sc.arr(K("z"))}),
                                  sc.objd({"k": K("second"), "l": v}))})


def cardinality(ck):
    for mn, mx in itertools.product((0, 1, 2, 3), (None, 1, 2, 3)):
        if mx is not None and mn > mx:
            continue
        for kind in ("list", "leaf-list"):
            def mk(state=False):
                if kind == "list":
                    return lst("l", leaf("k"), keys=("k",), min=mn, max=mx)
                return leaflist("l", min=mn, max=mx)
            nodes = [cont("c", mk(), presence=True), lst("o", leaf("k"), lst("l", leaf("k"), keys=("k",), max=mx) if kind == "list" else leaflist("l", max=mx), keys=("k",))]
            w = world(ck, f"c07-card-{mn}-{mx}-{kind}", lambda p, nodes=nodes: World(p, [statements(nodes)]))
            for n in range(0, MAXN + 1):
                for where in ("c", "o" if kind == "list" else "oo"):
                    def t(x, n=n, where=where, kind=kind, mn=mn, mx=mx):
                        sc = x.sc
                        v = sc.arr(*[sc.objd({"k": tok(sc, f"k{i}")}) if kind == "list" else tok(sc, f"e{i}") for i in range(n)])
                        lo = mn if where == "c" else 0
                        bad = f"it has {n} entries with bounds {lo}..{mx}" if n < lo or (mx is not None and n > mx) else None
                        root = sc.root(place(sc, v, where))
                        judge(x, root, bad, "SequenceNode._check_cardinality", f"{kind} of {n} entries, bounds {lo}..{mx}")
                    ck.scenario(f"SequenceNode._check_cardinality/{kind}/{mn}-{mx}/{n}/{where}", t, w)


def keys(ck):
    nodes = [cont("c", lst("l", leaf("k1"), leaf("k2"), leaf("v"), keys=("k1", "k2")), presence=True),
             cont("d", lst("l", leaf("k"), leaf("v"), keys=("k",))),
             cont("s", lst("l", leaf("k"), leaf("v"), keys=("k",)), lst("n", leaf("v")), config=False)]
    w = world(ck, "c07-keys", lambda p: World(p, [statements(nodes)]))
    for n in (1, 2, 3):
        for combo in itertools.product(["AA", "AB", "BA", "BB"], repeat=n):
            def t(x, combo=combo):
                sc = x.sc
                v = sc.arr(*[sc.objd({"k1": tok(sc, c[0]), "k2": tok(sc, c[1]), "v": tok(sc, "v")}) for c in combo])
                root = sc.root(sc.objd({"m:c": sc.objd({"l": v})}))
                judge(x, root, f"keys {combo} repeat" if len(set(combo)) < len(combo) else None, "ListNode._check_keys", f"list with keys {combo}")
            ck.scenario(f"ListNode._check_keys/{'-'.join(combo)}", t, w)
        for top in ("m:d", "m:s"):
            for combo in itertools.product("ABC"[:n], repeat=n):
                def t(x, combo=combo, top=top):
                    sc = x.sc
                    v = sc.arr(*[sc.objd({"k": tok(sc, c), "v": tok(sc, "v")}) for c in combo])
                    root = sc.root(sc.objd({top: sc.objd({"l": v})}))
                    judge(x, root, f"keys {combo} repeat" if len(set(combo)) < len(combo) else None, "ListNode._check_keys", f"list with keys {combo} under {top}")
                ck.scenario(f"ListNode._check_keys/{top}-{'-'.join(combo)}", t, w)
        for miss in range(n):
            for which in ("k1", "k2"):
                def t(x, miss=miss, which=which, n=n):
                    sc = x.sc
                    ents = []
                    for i in range(n):
                        d = {"k1": tok(sc, f"k{i}"), "k2": tok(sc, "same"), "v": tok(sc, "v")}
                        if i == miss:
                            del d[which]
                        ents.append(sc.objd(d))
                    root = sc.root(sc.objd({"m:c": sc.objd({"l": sc.arr(*ents)})}))
                    judge(x, root, f"entry {miss} lacks key {which}", "ListNode._check_keys", f"list whose entry {miss} of {n} lacks {which}", ("SchemaError",))
                ck.scenario(f"ListNode._check_keys/missing-{which}-{miss}-of-{n}", t, w)

    def keyless(x):
        sc = x.sc
        root = sc.root(sc.objd({"m:s": sc.objd({"n": sc.arr(sc.objd({"v": tok(sc, "a")}), sc.objd({"v": tok(sc, "a")}), sc.objd({}))})}))
        judge(x, root, None, "ListNode._check_list_props", "state list without keys and with equal entries")
    ck.scenario("ListNode._check_list_props/keyless", keyless, w)


def unique(ck):
    from ..world import S
    V = [None, "A", "B"]
    nodes = [cont("c", lst("l", leaf("k"), leaf("u"), cont("d", leaf("x")), leaf("v"), leaf("w", default="dd"), keys=("k",),
                           extra=(S("unique", "u"),))),
             cont("p", lst("l", leaf("k"), leaf("v"), cont("d", leaf("x")), keys=("k",), extra=(S("unique", "d/x v"),))),
             cont("t", lst("l", leaf("k"), leaf("u"), leaf("v"), keys=("k",), extra=(S("unique", "u"), S("unique", "v")))),
             cont("f", lst("l", leaf("k"), leaf("w", default="dd"), leaf("v"), keys=("k",), extra=(S("unique", "w v"),))),
             cont("h", lst("l", leaf("k"), choice("ch", leaf("a"), leaf("b")), keys=("k",), extra=(S("unique", "a"),)))]
    w = world(ck, "c07-unique", lambda p: World(p, [statements(nodes)]))

    def run1(top, mk, combos, same, label):
        for combo in combos:
            def t(x, combo=combo):
                sc = x.sc
                ents = []
                for i, c in enumerate(combo):
                    d = {"k": tok(sc, f"k{i}")}
                    d.update(mk(sc, c))
                    ents.append(sc.objd(d))
                root = sc.root(sc.objd({top: sc.objd({"l": sc.arr(*ents)})}))
                bad = any(same(combo[i], combo[j]) for i in range(len(combo)) for j in range(i))
                judge(x, root, f"{label} values {combo} repeat" if bad else None, "ListNode._check_unique", f"list unique in {label} with values {combo}")
            ck.scenario(f"ListNode._check_unique/{label}/{combo}", t, w)

    def leafs(*nms):
        def mk(sc, c):
            return {n: (K(v) if n == "w" else tok(sc, v)) for n, v in zip(nms, c) if v}
        return mk
    prod = list(itertools.product(V, V))
    N3 = (1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4)
    run1("m:c", leafs("u"), [tuple((a,) for a in cs) for n in N3 for cs in itertools.product(V, repeat=n)], lambda a, b: a == b and a[0], "u")

    def mkp(sc, c):
        d = {}
        if c[0]:
            d["d"] = sc.objd({"x": tok(sc, c[0])})
        if c[1]:
            d["v"] = tok(sc, c[1])
        return d
    three = list(itertools.product(prod, repeat=3))
    run1("m:p", mkp, list(itertools.product(prod, repeat=2)) + (three[::3] if ck.tier == "quick" else three), lambda a, b: a == b and a[0] and a[1], "d/x v")
    run1("m:t", leafs("u", "v"), list(itertools.product(prod, repeat=2)) + three[::5],
         lambda a, b: (a[0] == b[0] and a[0]) or (a[1] == b[1] and a[1]), "u; v")
    W = [None, "dd", "A"]

    def samef(a, b):
        return (a[0] or "dd") == (b[0] or "dd") and a[1] and a[1] == b[1]
    run1("m:f", leafs("w", "v"), list(itertools.product(itertools.product(W, V), repeat=2)), samef, "w(default) v")

    def mkh(sc, c):
        return {c[0]: tok(sc, c[1])} if c else {}
    opts = [None, ("a", "A"), ("a", "B"), ("b", "A")]
    run1("m:h", mkh, list(itertools.product(opts, repeat=2)) + list(itertools.product(opts, repeat=3)), lambda a, b: a == b and a and a[0] == "a", "choice leaf a")


def leaflists(ck):
    nodes = [cont("c", leaflist("l"), leaflist("s", config=False)), leaflist("t"),
             cont("st", leaflist("l"), config=False)]
    w = world(ck, "c07-ll", lambda p: World(p, [statements(nodes)]))
    for n in (0, 1, 2, 3, 4):
        for combo in itertools.product("ABCD"[:max(1, n)], repeat=n):
            if n == 4 and combo[0] != "A":
                continue

            def t(x, combo=combo):
                sc = x.sc
                bad = f"values {combo} repeat" if len(set(combo)) < len(combo) else None
                mk = lambda: sc.arr(*[tok(sc, c) for c in combo])
                C = "LeafListNode._check_list_props"
                judge(x, sc.root(sc.objd({"m:c": sc.objd({"l": mk()})})), bad, C, f"configuration leaf-list {combo}")
                judge(x, sc.root(sc.objd({"m:t": mk()})), bad, C, f"top-level configuration leaf-list {combo}")
                judge(x, sc.root(sc.objd({"m:c": sc.objd({"s": mk()})})), None, C, f"state leaf-list {combo}")
                judge(x, sc.root(sc.objd({"m:st": sc.objd({"l": mk()})})), None, C, f"leaf-list {combo} in a state container")
            ck.scenario(f"LeafListNode._check_list_props/{''.join(combo)}", t, w)


# type name -> (type, lists of lexical forms of one value each)
def typed_values():
    from ..world import S
    T = lambda n, *b: S("type", n, *b)
    return {
        "int8": (T("int8"), [[0], [1], [-1]]), "uint64": (T("uint64"), [["0"], ["1"], ["18446744073709551615"]]),
        "string": (T("string"), [["a"], ["A"], [""], [" "], ["a "], ["1"], ["\u00e9"], ["e\u0301"]]),
        "decimal64": (T("decimal64", S("fraction-digits", "2")), [["1.0", "1.00", "1"], ["0.0", "-0.0", "0"], ["0.01"], ["-1.0", "-1.00"]]),
        "boolean": (T("boolean"), [[True], [False]]), "empty": (T("empty"), [[[None]]]),
        "binary": (T("binary"), [["YQ=="], ["Yg=="], [""]]), "enumeration": (T("enumeration", S("enum", "a"), S("enum", "b")), [["a"], ["b"]]),
        "bits": (T("bits", *[S("bit", b) for b in "qpr"]), [["p q", "q p"], ["p"], ["q"], [""], ["r p q", "q r p", "p q r"]]),
        "identityref": (T("identityref", S("base", "base")), [["d1", "m:d1"], ["m:d2", "d2"], ["n:d1"]]),
        "instance-identifier": (T("instance-identifier", S("require-instance", "false")), [["/m:x/l"], ["/m:x/n:l"], ["/m:y[a='1'][b='2']", '/m:y[b="2"][a="1"]'], ["/m:y[a='2'][b='1']"], ["/m:x"]]),
        "union": (T("union", T("boolean"), T("uint8"), T("identityref", S("base", "base")), T("string")), [[True], [1], [False], [0], ["1"], ["true"], ["m:d1", "d1"], ["d"], ["0"]]),
    }


def typed(ck):
    """Equal values in different lexical forms repeat, different values do not."""
    from ..world import S, leaf as sleaf
    from .c11 import L
    tv = typed_values()
    ids = [S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "base"))]
    body = [x for n, (t, _) in tv.items() for x in (S("leaf-list", f"ll-{n}", t), S("list", f"lk-{n}", S("key", "k z"), sleaf("k", t), sleaf("z")), S("list", f"lu-{n}", S("key", "i"), S("unique", "u c/w"), sleaf("i"), sleaf("u", t), S("container", "c", sleaf("w", t))))]
    m = module("m", *ids, S("container", "x", sleaf("l")), S("list", "y", S("key", "a b"), sleaf("a"), sleaf("b")), S("container", "c", *body))
    n = module("n", S("import", "m", S("prefix", "m")), S("identity", "d1", S("base", "m:base")), S("augment", "/m:x", sleaf("l")))
    w = world(ck, "c07-typed", lambda p: World(p, [m, n]))
    kinds = {
        "leaf-list": ("LeafListNode._check_list_props", lambda n, a, b: {f"ll-{n}": [a, b]}),
        "key": ("ListNode._check_keys", lambda n, a, b: {f"lk-{n}": [{"k": a, "z": "s"}, {"z": "s", "k": b}]}),
        "unique": ("ListNode._check_unique", lambda n, a, b: {f"lu-{n}": [{"i": "1", "u": a, "c": {"w": a}}, {"i": "2", "u": b, "c": {"w": a}}]}),
        "unique-path": ("ListNode._check_unique", lambda n, a, b: {f"lu-{n}": [{"i": "1", "u": a, "c": {"w": a}}, {"i": "2", "u": a, "c": {"w": b}}]})}
    for (name, (_, values)), kind in itertools.product(tv.items(), kinds):
        def t(x, name=name, values=values, kind=kind):
            forms = [(i, f) for i, fs in enumerate(values) for f in fs]
            cons, doc = kinds[kind]
            docs = []
            for (p, (i, a)), (q, (j, b)) in itertools.product(enumerate(forms), repeat=2):
                if i != j and ck.tier == "quick" and (p > q or (kind.startswith("unique") and q - p > 2)):
                    continue
                docs.append((f"{a!r} and {b!r} are the same value" if i == j else None, doc(name, a, b)))
            allof = [fs[-1] for fs in values]
            if kind == "leaf-list":
                docs.append((None, {f"ll-{name}": allof}))
            if kind == "key":
                docs.append((None, {f"lk-{name}": [{"k": a, "z": "s"} for a in allof]}))
            for bad, d in docs:
                r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L({"m:c": d})))
                if x.expect(r[0] == "ok", "valid-accepted", cons, f"{d} cannot be decoded: {r[1]}"):
                    judge(x, r[1], bad, cons, f"{d}".replace('"', "'"), scopes=("semantics",) if ck.tier == "quick" else ("semantics", "all"))
        ck.scenario(f"typed/{name}/{kind}", t, w, Config(steps=10 ** 7, rec=120, depth=300))


def run(ck):
    typed(ck)
    ck.floor = 5500
    cardinality(ck)
    keys(ck)
    unique(ck)
    leaflists(ck)
