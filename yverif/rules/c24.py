"""C24: equality of values and routes is structural, its negation is !=, hashes agree."""
import ast
import itertools
from decimal import Decimal
from .common import *


def eq(x, a, b, ne=False):
    return x.I.compare(ast.NotEq() if ne else ast.Eq(), a, b)


def h(x, a):
    from ..extern import hash_of
    return x.I.force(hash_of(x.I, a, None))


def values(x):
    """name -> (value, python model of its content)"""
    sc, T = x.sc, x.sc.token
    ts = lambda n: Sym(("ts", n), {"obj"}, uniq=True)
    a, b = K("a"), K("b")
    L = lambda n, *v: (sc.arr(*v, ts=ts(n)), n)
    r = {}

    def arr(name, content):
        r[name] = (sc.arr(*[mk(name + str(i), c) for i, c in enumerate(content)], ts=ts(name)), ("A", tuple(freeze_(c) for c in content)))

    def obj(name, d):
        r[name] = (sc.objd({k: mk(name + k, c) for k, c in d.items()}, ts=ts(name)), ("O", frozenset((k, freeze_(c)) for k, c in d.items())))

    def mk(n, c):
        if isinstance(c, list):
            return sc.arr(*[mk(n + str(i), y) for i, y in enumerate(c)], ts=ts(n))
        if isinstance(c, dict):
            return sc.objd({k: mk(n + k, y) for k, y in c.items()}, ts=ts(n))
        return c if isinstance(c, V) else K(c)

    def freeze_(c):
        if isinstance(c, list):
            return ("A", tuple(freeze_(y) for y in c))
        if isinstance(c, dict):
            return ("O", frozenset((k, freeze_(y)) for k, y in c.items()))
        return term_of(c) if isinstance(c, V) else (type(c).__name__, c)
    for n in ("", "'"):       # each content twice, with distinct timestamps
        arr("empty-array" + n, [])
        arr("[a]" + n, [a])
        arr("[a,b]" + n, [a, b])
        arr("[-1]" + n, [-1])
        arr("[{k:a}]" + n, [{"k": a}])
        obj("empty-object" + n, {})
        obj("{x:a}" + n, {"x": a})
        obj("{x:a,y:b}" + n, {"x": a, "y": b} if n else {"y": b, "x": a})
        obj("{x:-1}" + n, {"x": -1})
        obj("{x:[a]}" + n, {"x": [a]})
        obj("{x:{y:a}}" + n, {"x": {"y": a}})
    arr("[b,a]", [b, a])
    arr("[-2]", [-2])
    arr("[0]", [0])
    arr("['']", [""])
    arr("[b]", [b])
    arr("[{k:b}]", [{"k": b}])
    arr("[[]]", [[]])
    arr("[{}]", [{}])
    obj("{y:a}", {"y": a})
    obj("{x:-2}", {"x": -2})
    obj("{x:b,y:a}", {"x": b, "y": a})
    obj("{x:{}}", {"x": {}})
    obj("{x:[]}", {"x": []})
    obj("{x:{y:b}}", {"x": {"y": b}})
    return r


def vals(ck):
    def t(x):
        vs = values(x)
        for (n1, (v1, m1)), (n2, (v2, m2)) in itertools.product(vs.items(), repeat=2):
            same_ = m1 == m2
            e, ne = eq(x, v1, v2), eq(x, v1, v2, True)
            x.expect(e == same_, "structural-equality", "StructuredValue.__eq__", f"{n1} == {n2} is {e}")
            x.expect(ne == (not e), "inequality-is-negation", "StructuredValue.__eq__", f"{n1} != {n2} is {ne} although == is {e}")
            if same_:
                x.expect(term_of(h(x, v1)) == term_of(h(x, v2)), "equal-hash", v1.cls.name + ".__hash__", f"equal values {n1} and {n2} have different hashes")
        for n1, (v1, m1) in vs.items():
            for n2, o in (("None", NONE), ("a string", K("a")), ("a number", K(0)), ("a plain list", Lst("list", [])), ("a plain list [a]", Lst("list", [K("a")])), ("a plain dict", Dct(())), ("a tuple", Lst("tuple", []))):
                r = x.attempt(lambda: kbool(eq(x, v1, o)))
                x.expect(r[0] == "ok" and not x.I.truth(r[1]), "structural-equality", "StructuredValue.__eq__", f"{n1} == {n2}: {r}")
                r = x.attempt(lambda: kbool(eq(x, v1, o, True)))
                x.expect(r[0] == "ok" and x.I.truth(r[1]), "inequality-is-negation", "StructuredValue.__eq__", f"{n1} != {n2}: {r}")
    ck.scenario("values", t, None)

    def tm(x):
        meta = lambda: Dct([(K("o:n"), K(1))])
        mk = lambda m: x.sc.objd({"x": K(1), "@x": m})
        v, w, u = mk(meta()), mk(meta()), mk(Dct([(K("o:n"), K(2))]))
        x.expect(eq(x, v, w) and not eq(x, v, u) and eq(x, v, u, True), "structural-equality", "StructuredValue.__eq__", "annotated objects")
        r = x.attempt(lambda: h(x, v))
        x.expect(r[0] == "ok", "hashable", "ObjectValue.__hash__", f"hashing an annotated object raises {r[1]}")
        if r[0] == "ok":
            x.expect(term_of(r[1]) == term_of(h(x, w)), "equal-hash", "ObjectValue.__hash__", "equal annotated objects have different hashes")
        a1 = x.sc.arr(v)
        r = x.attempt(lambda: h(x, a1))
        x.expect(r[0] == "ok", "hashable", "ArrayValue.__hash__", f"hashing an array with an annotated object raises {r[1]}")
    ck.scenario("annotated", tm, None)

    def tc(x):
        # a copy is equal to, and distinct from, its original and changes independently
        for n, (v, m) in values(x).items():
            c = x.call(v, "copy")
            x.expect(c is not v and c.cls is v.cls and eq(x, v, c) and not eq(x, v, c, True), "copy-equal", "StructuredValue.copy", f"copy of {n} is not an equal new value")
            if m[0] == "O":
                x.I.setitem(c, K("new"), K(1))
            else:
                x.call(c, "append", K(1))
            x.expect(not eq(x, v, c) and eq(x, v, c, True), "copy-independent", "StructuredValue.copy", f"{n} equals its modified copy")
    ck.scenario("copies", tc, None)

    def th(x):
        # equality and hash follow the current content, whatever was asked before and however it was changed
        L = lambda *v: Lst("list", [K(a) for a in v])
        lists = {"append": (("append", K(3)), [1, 2, 3]), "extend": (("extend", L(3, 4)), [1, 2, 3, 4]), "insert": (("insert", K(0), K(3)), [3, 1, 2]), "pop": (("pop",), [1]), "clear": (("clear",), []),
                 "remove": (("remove", K(1)), [2]), "reverse": (("reverse",), [2, 1]), "setitem": (("__setitem__", K(0), K(5)), [5, 2]), "delitem": (("__delitem__", K(0)), [2]), "iadd": (("__iadd__", L(7)), [1, 2, 7])}
        dicts = {"update": (("update", Dct([(K("z"), K(3))])), {"x": 1, "y": 2, "z": 3}), "pop": (("pop", K("x")), {"y": 2}), "clear": (("clear",), {}), "setdefault": (("setdefault", K("z"), K(1)), {"x": 1, "y": 2, "z": 1}),
                 "setitem": (("__setitem__", K("x"), K(7)), {"x": 7, "y": 2}), "delitem": (("__delitem__", K("y")), {"x": 1}), "popitem": (("popitem",), {"x": 1})}
        for kind, ops in (("A", lists), ("O", dicts)):
            for nm, (op, result) in ops.items():
                v = x.sc.arr(K(1), K(2)) if kind == "A" else x.sc.objd({"x": K(1), "y": K(2)})
                h0 = h(x, v)
                cons = v.cls.name + ".__hash__"
                if op[0] in ("__setitem__",):
                    x.I.setitem(v, op[1], op[2])
                elif op[0] == "__delitem__":
                    x.I.delitem(v, op[1])
                elif op[0] == "__iadd__":
                    x.call(v, "extend", op[1])
                else:
                    x.call(v, *op)
                w = x.sc.arr(*map(K, result)) if kind == "A" else x.sc.objd({k: K(b) for k, b in result.items()})
                x.expect(eq(x, v, w), "structural-equality", "StructuredValue.__eq__", f"after {nm} the value differs from a fresh one with the same content")
                x.expect(term_of(h(x, v)) == term_of(h(x, w)), "equal-hash", cons, f"after hashing and {nm}, equal values have different hashes")
            inner = x.sc.arr(K(1)) if kind == "A" else x.sc.objd({"x": K(1)})
            outer, outer2 = x.sc.arr(inner), x.sc.objd({"m": inner})
            h(x, outer), h(x, outer2)
            if kind == "A":
                x.call(inner, "append", K(2))
            else:
                x.I.setitem(inner, K("x"), K(2))
            fresh = lambda: x.sc.arr(K(1), K(2)) if kind == "A" else x.sc.objd({"x": K(2)})
            x.expect(eq(x, outer, x.sc.arr(fresh())) and term_of(h(x, outer)) == term_of(h(x, x.sc.arr(fresh()))), "equal-hash", "ArrayValue.__hash__", "an array hashed before an inner value changed")
            x.expect(eq(x, outer2, x.sc.objd({"m": fresh()})) and term_of(h(x, outer2)) == term_of(h(x, x.sc.objd({"m": fresh()}))), "equal-hash", "ObjectValue.__hash__", "an object hashed before an inner value changed")
    ck.scenario("hash after change", th, None)


def items(x):
    sc = x.sc
    r = {}
    for n in ("", "'"):
        r["/a" + n] = (sc.new("MemberName", K("a"), NONE), ("m", "a", None))
        r["/m:a" + n] = (sc.new("MemberName", K("a"), K("m")), ("m", "a", "m"))
        r["[1]" + n] = (sc.new("EntryIndex", K(0)), ("i", 0))
        r["[2]" + n] = (sc.new("EntryIndex", K(1)), ("i", 1))
        r["[.='0']" + n] = (sc.new("EntryValue", K("0")), ("v", "0"))
        r["[.='a']" + n] = (sc.new("EntryValue", K("a")), ("v", "a"))
        ks = [(Lst("tuple", [K("k"), NONE]), K("1")), (Lst("tuple", [K("l"), K("m")]), K("2"))]
        r["[k='1'][m:l='2']" + n] = (sc.new("EntryKeys", Dct(ks if n else ks[::-1])), ("k", "k1ml2"))
        r["[k='1']" + n] = (sc.new("EntryKeys", Dct([(Lst("tuple", [K("k"), NONE]), K("1"))])), ("k", "k1"))
        r["action a" + n] = (sc.new("ActionName", K("a"), NONE), ("act", "a"))
    r["/b"] = (sc.new("MemberName", K("b"), NONE), ("m", "b"))
    r["/n:a"] = (sc.new("MemberName", K("a"), K("n")), ("m", "na"))
    r["[k='2']"] = (sc.new("EntryKeys", Dct([(Lst("tuple", [K("k"), NONE]), K("2"))])), ("k", "k2"))
    r["[m:k='1']"] = (sc.new("EntryKeys", Dct([(Lst("tuple", [K("k"), K("m")]), K("1"))])), ("k", "mk1"))
    return r


def routes(ck):
    def t(x):
        its = items(x)
        for (n1, (v1, m1)), (n2, (v2, m2)) in itertools.product(its.items(), repeat=2):
            want = m1 == m2
            r = x.attempt(lambda: kbool(eq(x, v1, v2)))
            c = v1.cls.name + ".__eq__"
            if not x.expect(r[0] == "ok", "comparison-never-fails", c, f"{n1} == {n2} raises {r[1]}"):
                continue
            e = x.I.truth(r[1])
            x.expect(e == want, "route-item-equality", c, f"{n1} == {n2} is {e}")
            x.expect(eq(x, v1, v2, True) == (not e), "inequality-is-negation", c, f"{n1} != {n2} although == is {e}")
            if want:
                r1, r2 = x.attempt(lambda: h(x, v1)), x.attempt(lambda: h(x, v2))
                x.expect(r1[0] == r2[0] and (r1[0] == "raise" or term_of(r1[1]) == term_of(r2[1])), "equal-hash", v1.cls.name, f"equal route items {n1} and {n2} hash differently")
        for n1, (v1, m1) in its.items():
            for o in (NONE, K("a"), K(0), Lst("tuple", []), Dct(()), x.sc.objd({})):
                r = x.attempt(lambda: kbool(eq(x, v1, o)))
                x.expect(r[0] == "ok" and not x.I.truth(r[1]), "comparison-never-fails", v1.cls.name + ".__eq__", f"{n1} == {show(term_of(o))}: {r}")
    ck.scenario("route items", t, None)

    def tr(x):
        its = items(x)
        R = lambda *ns: (x.sc.new("InstanceRoute", Lst("list", [its[n][0] for n in ns])), tuple(its[n][1] for n in ns))
        rs = {}
        for sel in ([], ["/a"], ["/a'"], ["/m:a"], ["/b"], ["/a", "[1]"], ["/a'", "[1]'"], ["/a", "[2]"], ["/a", "[.='0']"], ["/a", "[k='1'][m:l='2']"], ["/a'", "[k='1'][m:l='2']'"], ["/a", "[k='1']"], ["/a", "/b"], ["/a", "[1]", "/b"], ["action a"]):
            rs["".join(sel)] = R(*sel)
        for (n1, (v1, m1)), (n2, (v2, m2)) in itertools.product(rs.items(), repeat=2):
            r = x.attempt(lambda: kbool(eq(x, v1, v2)))
            if not x.expect(r[0] == "ok", "comparison-never-fails", "InstanceRoute", f"{n1} == {n2} raises {r[1]}"):
                continue
            e = x.I.truth(r[1])
            x.expect(e == (m1 == m2), "route-equality", "InstanceRoute", f"{n1} == {n2} is {e}")
            x.expect(eq(x, v1, v2, True) == (not e), "inequality-is-negation", "InstanceRoute", f"{n1} != {n2} although == is {e}")
            if m1 == m2:
                r1, r2 = x.attempt(lambda: h(x, v1)), x.attempt(lambda: h(x, v2))
                x.expect(r1[0] == r2[0] == "ok" and term_of(r1[1]) == term_of(r2[1]), "equal-hash", "InstanceRoute.__hash__", f"equal routes {n1} and {n2} hash differently: {r1} {r2}")
    ck.scenario("routes", tr, None)


def run(ck):
    ck.floor = 3000
    vals(ck)
    routes(ck)
