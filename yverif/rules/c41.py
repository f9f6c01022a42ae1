"""C41: merge gives what docs/instance.rst (RFC 7950 merge operation) says.

Receivers and merged values are enumerated for every kind of node; the merge of
the repository, at every node of the receiver, cooked and raw, is interpreted
and compared with a reference merge of plain trees."""
import copy
import itertools
from .common import *
from ..world import leaf as sleaf
from .c11 import L
from .c28 import plain, attempt_plain

T = lambda n, *s: S("type", n, *s)
U = lambda c, *s: S("container", c, *s)


def mods():
    inner = lambda: [S("list", "n", S("key", "nk"), sleaf("nk", "uint8"), sleaf("nv"), S("leaf-list", "nl", T("uint8"))), U("ic", sleaf("x"), U("deep", sleaf("y"), S("leaf-list", "yl", T("string"))))]
    m = module("m", S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "base")),
               U("c", sleaf("a"), sleaf("b", "uint8"), sleaf("flag", "boolean"), sleaf("e", "empty"), S("leaf-list", "ll", T("string")), S("leaf-list", "li", T("int8")), S("leaf-list", "lo", S("ordered-by", "user"), T("string")), S("leaf-list", "ld", T("decimal64", S("fraction-digits", "2"))), S("leaf-list", "lid", T("identityref", S("base", "base"))),
                 S("leaf-list", "lb", T("bits", S("bit", "p"), S("bit", "q"))), S("leaf-list", "lx", T("binary")), S("leaf-list", "lw", T("union", T("boolean"), T("uint8"), T("string"))), S("leaf-list", "ls", T("string"), S("config", "false")), U("i", sleaf("x"), U("j", sleaf("y"), sleaf("z"))), U("p", S("presence", "p"), sleaf("q")), S("choice", "ch", sleaf("c1"), S("case", "k2", sleaf("c2"), U("c3", sleaf("c4")))), S("anydata", "any"), S("anyxml", "axl")),
               S("list", "l", S("key", "k"), sleaf("k"), sleaf("v"), sleaf("w", "uint8"), *inner()),
               S("list", "l2", S("key", "j k"), sleaf("k"), sleaf("j", "int8"), sleaf("v")),
               S("list", "lu", S("key", "k"), S("ordered-by", "user"), sleaf("k", "uint16"), sleaf("v")),
               S("list", "lk", S("key", "id dec"), sleaf("id", T("identityref", S("base", "base"))), sleaf("dec", T("decimal64", S("fraction-digits", "2"))), sleaf("v")),
               S("list", "kl", S("config", "false"), sleaf("s"), sleaf("t"), U("u", sleaf("v"))), sleaf("top"))
    o = module("o", S("import", "m", S("prefix", "m")), S("identity", "d1", S("base", "m:base")), S("augment", "/m:c", sleaf("a"), S("leaf-list", "ll", T("string")), U("oc", sleaf("x"))), S("augment", "/m:l", sleaf("v"), U("oc", sleaf("x"))), sleaf("top"))
    return [m, o]


KEYS = {"l": ["k"], "l2": ["j", "k"], "lu": ["k"], "lk": ["id", "dec"], "n": ["nk"], "kl": []}
ANY = {"any", "axl"}


def local(n):
    return n.split(":")[-1]


def merge(name, a, b):
    """Reference merge of canonical raw values."""
    if local(name) in ANY or b == [None]:
        return b
    if isinstance(a, dict):
        r = dict(a)
        for k, v in b.items():
            r[k] = merge(k, a[k], v) if k in a else v
        return r
    if isinstance(a, list) and a != [None]:
        if local(name) not in KEYS:
            return a + [v for v in b if not any(v == u and type(v) is type(u) for u in a)]
        keys = KEYS[local(name)]
        key = lambda e: tuple(repr(e.get(k)) for k in keys)
        full = lambda e: keys and all(k in e for k in keys)
        r = []
        for e in a:
            m = [f for f in b if full(e) and full(f) and key(f) == key(e)]
            r.append(merge("", e, m[0]) if m else e)
        return r + [f for f in b if not (full(f) and any(full(e) and key(f) == key(e) for e in a))]
    return b


ALT = {"1.0": "1.00", "2.5": "2.50", "m:d1": "d1", "m:d2": "d2", "p q": "q p"}


def alt(v):
    """The same value in another lexical form."""
    if isinstance(v, dict):
        return {k: alt(e) if local(k) not in ANY else e for k, e in v.items()}
    if isinstance(v, list):
        return [alt(e) for e in v]
    return ALT.get(v, v) if isinstance(v, str) else v


def subsets(items, orders=True):
    for n in range(len(items) + 1):
        yield from (itertools.permutations(items, n) if orders else itertools.combinations(items, n))


def fragments():
    """name -> (path, values of the node at that path)"""
    f = {}
    f["leaf"] = (("m:c", "a"), ["x", "y", ""])
    f["uint8"] = (("m:c", "b"), [0, 1])
    f["boolean"] = (("m:c", "flag"), [True, False])
    f["empty"] = (("m:c", "e"), [[None]])
    f["top"] = (("m:top",), ["x", "y"])
    f["other-module-top"] = (("o:top",), ["x", "y"])
    f["other-module-leaf"] = (("m:c", "o:a"), ["x", "y"])
    for n, vs in (("ll", ["x", "y", "z"]), ("lo", ["x", "y", "z"]), ("li", [0, 1, -1]), ("ld", ["1.0", "2.5", "0.0"]), ("lid", ["m:d1", "m:d2", "o:d1"]), ("lb", ["p", "p q", ""]), ("lx", ["YQ==", "Yg==", ""]), ("lw", [True, 1, "1"]), ("o:ll", ["x", "y", "z"])):
        f[n] = (("m:c", n), [list(s) for s in subsets(vs)])
    f["repeated"] = (("m:c", "ls"), [["x"], ["x", "x"], ["x", "y", "x"], ["y", "y"], []])
    f["nested"] = (("m:c", "i"), [{}, {"x": "1"}, {"x": "2"}, {"j": {}}, {"j": {"y": "1"}}, {"j": {"z": "1"}, "x": "3"}, {"j": {"z": "2", "y": "2"}}])
    f["presence"] = (("m:c", "p"), [{}, {"q": "1"}, {"q": "2"}])
    f["any"] = (("m:c", "any"), [{}, {"x:y": 1}, {"x:y": {"z": [1, 2]}}, {"x:y": {"q": None}, "w": "s"}])
    f["anyxml"] = (("m:c", "axl"), ["text", {"x:y": [1]}, ["a", 1], {"b": 2}])
    f["container"] = (("m:c",), [{}, {"a": "1"}, {"b": 2, "o:a": "w"}, {"o:a": "1", "a": "2", "ll": ["x"]}, {"ll": ["y", "x"], "o:ll": ["x"], "i": {"x": "1"}}, {"i": {"j": {"y": "2"}}, "p": {}, "e": [None]}, {"c1": "s"}, {"p": {"q": "1"}, "a": "2", "o:oc": {"x": "1"}}, {"o:oc": {}, "any": {"q:r": 1}}])
    e = lambda k, **m: {"k": k, **m}
    ents = [e("1"), e("1", v="x"), e("1", w=3, v="y"), {"w": 4, "k": "1"}]
    two = [[e("1", v="a"), e("2", v="b")], [e("2", v="c"), e("1", w=1)], [e("3"), e("2", w=2), e("4", v="d"), e("1", v="e")], [e("2", **{"o:v": "q", "v": "r"})], [e("1", **{"o:oc": {"x": "1"}}), e("3")], [e("", v="s"), e("1 ", v="t")]]
    f["list"] = (("m:l",), [[]] + [[a] for a in ents] + two)
    nest = lambda **m: [e("1", **m)]
    f["inner"] = (("m:l",), [nest(n=[{"nk": 1, "nv": "a"}]), nest(n=[{"nk": 2}, {"nk": 1, "nl": [1, 2]}]), nest(n=[{"nk": 1, "nl": [3, 2]}], v="z"), nest(ic={"x": "1"}), nest(ic={"deep": {"y": "1", "yl": ["p"]}}), nest(ic={"deep": {"yl": ["q", "p"]}, "x": "2"}) + [e("2", ic={"x": "3"})], [e("2", ic={"deep": {}}), e("1", n=[])]])
    k2 = lambda j, k, **m: {"j": j, "k": k, **m}
    f["two-keys"] = (("m:l2",), [[k2(1, "1", v="a")], [k2(1, "2", v="b"), k2(2, "1", v="c")], [{"v": "d", "k": "1", "j": 1}, k2(2, "2", v="e")], [k2(2, "1"), k2(1, "1", v="f"), k2(1, "2")], [k2(-1, "", v="g"), k2(0, "0")], [k2(0, "0", v="h"), k2(-1, "")]])
    f["user-ordered"] = (("m:lu",), [[{"k": 1, "v": "a"}, {"k": 2, "v": "b"}, {"k": 3}], [{"k": 3, "v": "c"}, {"k": 1, "v": "d"}], [{"k": 4}, {"k": 2, "v": "e"}, {"k": 0}], [{"k": 5}, {"k": 4, "v": "f"}]])
    kk = lambda i, d, **m: {"id": i, "dec": d, **m}
    f["typed-keys"] = (("m:lk",), [[kk("m:d1", "1.0", v="a"), kk("m:d2", "2.5")], [kk("m:d2", "2.5", v="b"), kk("o:d1", "1.0", v="c")], [kk("m:d1", "2.5", v="d"), kk("m:d1", "1.0", v="e")]])
    f["keyless"] = (("m:kl",), [[], [{"s": "1"}], [{"s": "1", "t": "2"}, {"s": "1"}], [{"t": "9"}, {"u": {"v": "1"}}], [{"u": {}, "s": "3"}]])
    return f


def wrap(path, v):
    for n in reversed(path):
        v = {n: v}
    return v


TREES = [{}, {"m:top": "1"}, {"o:top": "2", "m:c": {"a": "1", "ll": ["x", "y"], "i": {"x": "1"}}}, {"m:l": [{"k": "1", "v": "a"}, {"k": "2", "ic": {"x": "q"}}], "m:c": {}}, {"m:l": [{"k": "2", "ic": {"deep": {"y": "1"}}, "n": [{"nk": 1}]}, {"k": "3"}], "m:l2": [{"j": 1, "k": "1"}], "m:top": "3"},
         {"m:c": {"a": "2", "b": 1, "ll": ["z", "x"], "o:ll": ["x"], "i": {"j": {"y": "1"}}, "any": {"x:y": 1}}, "m:kl": [{"s": "1"}]}, {"m:kl": [{"s": "1"}, {"t": "1"}], "m:l2": [{"k": "1", "v": "q", "j": 1}, {"j": 2, "k": "1"}], "m:lu": [{"k": 1}]}]


def fmt(v):
    return repr(v).replace('"', "'")


def run(ck):
    ck.floor = 16000
    w = world(ck, "c41", lambda p: World(p, mods()))
    cfg = Config(steps=6 * 10 ** 7, rec=200, depth=400)

    def at(x, tree, path):
        i = x.call(x.sc.dm, "from_raw", L(tree))
        for n in path:
            i = x.call(i, "__getitem__", K(n))
        return i

    def value(x, tree, path):
        v = x.attr(x.call(x.sc.dm, "from_raw", L(tree)), "value")
        for n in path:
            v = x.I.getitem(v, K(n), None)
        return v

    def one(x, path, a, b, desc, where):
        """Merge b into a at the node with the path, directly and from all ancestors."""
        want = merge(path[-1] if path else "", a, b)
        ta, tb = wrap(path, a), wrap(path, alt(b))
        for up in range(len(path) + 1):
            p = path[:len(path) - up]
            for raw in (False, True):
                if up > 1 and raw:
                    continue
                v = L(wrap(path[len(p):], alt(b))) if raw else value(x, tb, p)
                r = attempt_plain(x, lambda: x.call(at(x, ta, p), "merge", v, TRUE if raw else K(False)))
                what = f"{desc}merging {fmt(b)} into {fmt(a)} at /{'/'.join(path)}" + (f" from {'/' + '/'.join(p)}" if up else "") + (" as raw value" if raw else "")
                if not x.expect(r[0] == "ok", "merge-succeeds", where, f"{what} raises {r[1]}", x.last.loc if r[0] == "raise" else None):
                    continue
                got = attempt_plain(x, lambda: plain(x, x.call(x.call(r[1], "top"), "raw_value")))
                x.expect(got == ("ok", wrap(path, want)), "merged-value", where, f"{what} gives {fmt(got[1])}, expected {fmt(wrap(path, want))}")
                q = plain(x, x.call(r[1], "json_pointer"))
                x.expect(q == "/" + "/".join(p), "merge-keeps-position", where, f"{what} moves the cursor to {q}")
                mine = attempt_plain(x, lambda: plain(x, x.call(r[1], "raw_value")))
                rest = want if not up else wrap(path[len(p):], want)
                if not isinstance(rest, list) and not raw:
                    x.expect(mine == ("ok", rest), "merged-value", where, f"{what} has the value {fmt(mine[1])}, expected {fmt(rest)}")

    for name, (path, vals) in fragments().items():
        where = "InstanceNode._merge_list" if isinstance(vals[-1], list) and vals[-1] != [None] else "InstanceNode._merge_container" if isinstance(vals[-1], dict) else "InstanceNode.merge"

        def t(x, name=name, path=path, vals=vals, where=where):
            pairs = list(itertools.product(range(len(vals)), repeat=2))
            if ck.tier == "quick" and len(vals) > 10:
                # all receivers of up to two entries with all values
                pairs = [(i, j) for i, j in pairs if (i * 7 + j * 3 + len(name)) % 3 == 0]
            for i, j in pairs:
                one(x, path, copy.deepcopy(vals[i]), copy.deepcopy(vals[j]), name + ": ", where)
        ck.scenario("fragment/" + name, t, w, cfg)

    def trees(x):
        for a, b in itertools.product(TREES, repeat=2):
            one(x, (), a, b, "", "InstanceNode._merge_container")
    ck.scenario("trees", trees, w, cfg)

    def entries_(x):
        """Merging into one entry of a list."""
        for (a, i), b in itertools.product((([{"k": "1", "v": "a"}, {"k": "2"}], 0), ([{"k": "1", "v": "a"}, {"k": "2"}], 1), ([{"k": "0"}, {"k": "1", "n": [{"nk": 1}]}, {"k": "2"}], 1)),
                                           ({"v": "z"}, {"w": 7, "n": [{"nk": 1, "nv": "q"}, {"nk": 2}]}, {"ic": {"x": "1"}, "o:v": "s"}, {})):
            for raw in (False, True):
                def f(a=a, b=b, i=i, raw=raw):
                    c = x.call(at(x, {"m:l": a}, ("m:l",)), "__getitem__", K(i))
                    v = L(b) if raw else x.I.getitem(value(x, {"m:l": [b]}, ("m:l",)), K(0), None)
                    return plain(x, x.call(x.call(x.call(c, "merge", v, K(raw)), "top"), "raw_value"))
                want = {"m:l": [merge("", e, b) if k == i else e for k, e in enumerate(a)]}
                got = attempt_plain(x, f)
                x.expect(got == ("ok", want), "merged-entry", "InstanceNode._merge_container", f"merging {fmt(b)} into entry {i} of {fmt(a)} gives {fmt(got[1])}, expected {fmt(want)}")
    ck.scenario("entries", entries_, w, cfg)
