"""C13: every XPath operator applies the XPath 1.0 conversions to its operands.

Each operator is interpreted abstractly, through the repository's own parser,
for every pair of operand kinds (booleans, special and ordinary numbers,
strings that are and are not numbers, node-sets of every leaf type); the
abstract result is compared with the recommendation's definition."""
from .xp import *

INF = float("inf")
OPERANDS = [
    ("true()", True), ("false()", False),
    ("0", 0.0), ("1", 1.0), ("2.5", 2.5), ("-5", -5.0), ("(1 div 0)", INF), ("(0 div 0)", NAN),
    ("''", ""), ("'1'", "1"), ("'x'", "x"), ("' 2.5 '", " 2.5 "), ("'true'", "true"), ("'1e0'", "1e0"), ("'-5'", "-5"), ("'10'", "10"), ("'9'", "9"),
] + [(n, Nodes([STR[n]])) for n in ("s1", "s2", "sx", "se", "i", "i0", "big", "d", "bt", "bf", "e", "id", "en", "bits", "un")] + [
    ("none", Nodes()), ("ll", Nodes(["1", "x", "2.5"])), ("ln", Nodes(["1", "3"])), ("ls", Nodes(["5", "7"])),
]
CORE = {"true()", "false()", "0", "1", "2.5", "(0 div 0)", "''", "'1'", "'x'", "'10'", "'9'", "s1", "sx", "se", "i", "big", "d", "bt", "e", "id", "none", "ll", "ln", "ls"}
NAMES = {"=": "EqualityExpr", "!=": "EqualityExpr", "<": "RelationalExpr", "<=": "RelationalExpr", ">": "RelationalExpr", ">=": "RelationalExpr",
         "+": "AdditiveExpr", "-": "AdditiveExpr", "*": "MultiplicativeExpr", "div": "MultiplicativeExpr", "mod": "MultiplicativeExpr",
         "and": "AndExpr", "or": "OrExpr", "|": "UnionExpr"}


def kind(v):
    return "node-set" if isinstance(v, Nodes) else {bool: "boolean", float: "number", str: "string"}[type(v)]


def want(op, a, b):
    if op in CMP:
        return ("ok", compare(op, a, b))
    if op == "and":
        return ("ok", boolean(a) and boolean(b))
    if op == "or":
        return ("ok", boolean(a) or boolean(b))
    if op == "|":
        if not (isinstance(a, Nodes) and isinstance(b, Nodes)):
            return ("raise", "XPathTypeError")
        return ("ok", Nodes(a + b))
    return ("ok", arith(op, a, b))


def check(x, text, got, exp, cons):
    ok = got[0] == exp[0] and (same(got[1], exp[1]) if exp[0] == "ok" else got[1] == exp[1])
    rule = "operator-result" if got[0] == exp[0] == "ok" else "operator-outcome"
    x.expect(ok, rule, cons, f"{text} gives {got[1]!r} instead of {exp[1]!r}", x.last.loc if got[0] == "raise" else None)


def binary(ck):
    w = xworld(ck)
    for op in NAMES:
        for lt, lv in OPERANDS:
            if ck.tier == "quick" and lt not in CORE:
                continue

            def t(x, op=op, lt=lt, lv=lv):
                c = x.sc.member(root(x), "m:c")
                ctx = sctx(x)
                for rt, rv in OPERANDS:
                    if ck.tier == "quick" and rt not in CORE:
                        continue
                    if op == "|" and lt == rt:
                        continue
                    text = f"{lt} {op} {rt}"
                    check(x, text, evaluate(x, text, c, ctx), want(op, lv, rv), f"{NAMES[op]} {op} on {kind(lv)}, {kind(rv)}")
            ck.scenario(f"{op}/{lt}", t, w, Config(steps=10**7, rec=200, depth=400))


def unary(ck):
    w = xworld(ck)

    def t(x):
        c = x.sc.member(root(x), "m:c")
        for ot, v in OPERANDS:
            for pre, f in (("-", lambda v: -number(v)), ("--", number), ("---", lambda v: -number(v))):
                check(x, pre + ot, evaluate(x, pre + ot, c), ("ok", f(v)), f"UnaryMinusExpr {pre} on {kind(v)}")
            text = f"s1[{ot}]" if not isinstance(v, float) else None
            if text:
                check(x, text, evaluate(x, text, c), ("ok", Nodes(["1"] if boolean(v) and ot not in STR and ot not in ("ll", "ln", "ls") else [])), f"Expr._apply_predicates {kind(v)}")
            text = f"ls[{ot}]"
            if isinstance(v, float):
                check(x, text, evaluate(x, text, c), ("ok", Nodes(["5"] if v == 1 else [])), f"Expr._apply_predicates {kind(v)}")
            for text in (f"({ot})[1]", f"({ot})/../s1"):
                exp = (("ok", Nodes(v[:1]) if text.endswith("[1]") else Nodes(["1"] if v else [])) if isinstance(v, Nodes) else ("raise", "XPathTypeError"))
                check(x, text, evaluate(x, text, c), exp, f"{'FilterExpr' if text.endswith('[1]') else 'PathExpr'} on {kind(v)}")
        for text, exp in (("ls | ls", ["5", "7"]), ("ls[1] | ls", ["5", "7"]), ("s1 | ls | s1", ["1", "5", "7"]), ("(ls | s1)[2]", None), ("ls | none", ["5", "7"]), ("none | none", [])):
            got = evaluate(x, text, c)
            if exp is None:
                x.expect(got[0] == "ok" and len(got[1]) == 1, "operator-result", "UnionExpr |", f"{text} gives {got[1]!r}")
            else:
                x.expect(got[0] == "ok" and isinstance(got[1], Nodes) and sorted(got[1]) == sorted(exp), "operator-result", "UnionExpr |", f"{text} gives {got[1]!r} instead of {exp}")
    ck.scenario("unary", t, w, Config(steps=10**8, rec=200, depth=400))


CONDS = [(t, v) for t, v in OPERANDS if t in ("true()", "false()", "0", "2.5", "(0 div 0)", "''", "'x'")] + [("../s", Nodes(["1"])), ("../n", Nodes())]


def conditions(ck):
    """Results of must and when expressions are converted to booleans."""
    leaves = [S("leaf", f"{kw}{i}", S("type", "string"), S(kw, t)) for kw in ("must", "when") for i, (t, v) in enumerate(CONDS)]
    w = world(ck, "c13-conditions", lambda p: World(p, [module("m", S("container", "c", sleaf("s"), sleaf("n"), *leaves))]))

    def t(x):
        for kw, exc, cons in (("must", "SemanticError", "DataNode._check_must"), ("when", "SchemaError", "ConditionalPattern._eval_when")):
            for i, (text, v) in enumerate(CONDS):
                r = x.sc.root(x.sc.objd({"m:c": x.sc.objd({"s": K("1"), f"{kw}{i}": K("v")})}))
                got = x.attempt(lambda: x.call(r, "validate"))
                exp = "ok" if boolean(v) else exc
                x.expect((got[0] if got[0] == "ok" else got[1]) == exp, "condition-result", cons, f"a node with {kw} {text!r} gives {got[0] if got[0] == 'ok' else got[1]} instead of {exp}")
    ck.scenario("conditions", t, w, Config(steps=10**8, rec=300, depth=400))


# node-set expression -> identities of its nodes; all the leaves have the same value
PLACES = {"p/x": ["px"], "q/x": ["qx"], "p/y": ["py"], "l/x": ["l0x", "l1x"], "l[1]/x": ["l0x"], "l[k='b']/x": ["l1x"], "l": ["l0", "l1"], "l[2]": ["l1"], "p": ["p"], "q": ["q"], "p/..": ["c"], ".": ["c"], "*/x": ["px", "qx", "l0x", "l1x"],
          "p/x[../y]": ["px"], "ll": ["e0", "e1"], "ll[2]": ["e1"], "none": [], "descendant::x": ["px", "qx", "qwx", "l0x", "l1x"], "p/x/..": ["p"], "l/..": ["c"], "p/*": ["px", "py"], "q/w": ["qw"], "q/w/x": ["qwx"], "q/descendant::x": ["qx", "qwx"]}


def places(ck):
    """The nodes of a union are told apart by their places, not by what they hold."""
    w = world(ck, "c13-places", lambda p: World(p, [
        module("m", S("container", "c", S("container", "p", sleaf("x"), sleaf("y")), S("container", "q", sleaf("x"), S("container", "w", sleaf("x"))),
                                            S("list", "l", S("key", "k"), sleaf("k"), sleaf("x")), S("leaf-list", "ll", S("config", "false"), S("type", "string")), sleaf("none"))),
        module("n", S("import", "m", S("prefix", "m")), S("augment", "/m:c", S("container", "o", sleaf("x")), ))]))

    def t(x, a=None):
        o = x.sc.objd
        v = K("1")
        r = x.sc.root(o({"m:c": o({"p": o({"x": v, "y": v}), "q": o({"x": v, "w": o({"x": v})}), "l": x.sc.arr(o({"k": K("a"), "x": v}), o({"k": K("b"), "x": v})), "ll": x.sc.arr(v, v), "n:o": o({"x": v})})}))
        c, ctx = x.sc.member(r, "m:c"), sctx(x)
        sd = x.attr(x.sc.dm, "schema_data")
        ctx2 = x.I.instantiate(x.p.cls("SchemaContext"), [sd, K("m"), Lst("tuple", [K("n"), K("2020-01-01")])], {})
        sets = {k: set(n) for k, n in PLACES.items()}
        ask = lambda text, n, cx=ctx: check(x, text, evaluate(x, text, c, cx), ("ok", float(n)), "UnionExpr | on places")
        if a is not None:
            for b in sets:
                ask(f"count({a} | {b})", len(sets[a] | sets[b]))
            return
        for a, b, d in [("p/x", "q/x", "p/x"), ("l/x", "p/x", "l[1]/x"), ("*/x", "q/w/x", "descendant::x"), ("p", "q", "l"), ("ll[2]", "ll", "none"), ("none", "p/..", ".")]:
            ask(f"count({a} | {b} | {d})", len(sets[a] | sets[b] | sets[d]))
        ask("sum(p/x | q/x | l/x)", 4)
        ask("count((p | q)/x)", 2)
        ask("count((p/x | q/x | l/x)/..)", 4)
        ask("count((p/x | q/x)/../..)", 1)
        ask("count((p/x | q/x)[. = '1'])", 2)
        ask("count(m:p/m:x | n:o/n:x)", 2, ctx2)
        ask("count(n:o/n:x | n:o/n:x | m:p/m:y)", 2, ctx2)
    for a in [None, *PLACES]:
        ck.scenario(f"places/{a}", lambda x, a=a: t(x, a), w, Config(steps=10**8, rec=200, depth=400))


def run(ck):
    ck.floor = 4000
    places(ck)
    conditions(ck)
    binary(ck)
    unary(ck)
