"""C14: XPath functions have the required signature, conversions and result.

The function table is the one of XPath 1.0 (sec. 4) and RFC 7950 (sec. 10).
For every function all argument counts are parsed abstractly and all argument
kinds interpreted; results are compared with the definitions in xpref."""
import itertools
from .xp import *
from ..xpref import FUNCTIONS
from .c13 import OPERANDS, CORE, kind

CFG = dict(steps=10**8, rec=200, depth=400)
DUMMY = "s1"
LABEL = {"re-match": "FuncReMatch", "bit-is-set": "FuncBitIsSet", "derived-from": "FuncDerivedFrom", "derived-from-or-self": "FuncDerivedFrom",
         "enum-value": "FuncEnumValue", "local-name": "FuncName"}


def cls(fn):
    return LABEL.get(fn) or "Func" + "".join(p.capitalize() for p in fn.split("-"))


def syntax_error(x, got):
    if got[0] != "raise":
        return False
    return x.p.issub(x.last.exc.cls, x.p.cls("ParserException")) if isinstance(x.last.exc.cls, Cls) else False


def arities(ck):
    w = xworld(ck)

    def t(x):
        ctx = sctx(x)
        for fn, (lo, hi, ns, res, _) in FUNCTIONS.items():
            for n in range(0, 6):
                text = f"{fn}({', '.join([DUMMY] * n)})"
                got = x.attempt(lambda: parse(x, text, ctx)[0])
                if n >= lo and (hi is None or n <= hi):
                    x.expect(got[0] == "ok", "arity-accepted", f"XPathParser._func_{fn.replace('-', '_')}", f"{text} is rejected with {got[1]!r}", x.last.loc if got[0] == "raise" else None)
                else:
                    x.expect(syntax_error(x, got), "arity-rejected", f"XPathParser._func_{fn.replace('-', '_')}",
                             f"{fn} with {n} arguments {'is accepted' if got[0] == 'ok' else 'raises ' + got[1]}")
            for text in (f"{fn} ( {' , '.join([DUMMY] * lo)} )", f"{fn}({', '.join([DUMMY] * lo)}) = 1", f"1 + {fn}({','.join([DUMMY] * lo)})", f"ls[{fn}({','.join([DUMMY] * lo)})]"):
                got = x.attempt(lambda: parse(x, text, ctx))
                x.expect(got[0] == "ok" and x.I.truth(got[1]) if isinstance(got[1], V) else got[0] == "ok" and got[1][1], "call-syntax", f"XPathParser._func_{fn.replace('-', '_')}", f"{text} is not parsed completely: {got!r}")
            for text in (f"{fn}({', '.join([DUMMY] * lo)}", f"{fn}({', '.join([DUMMY] * lo)},)", f"{fn}("):
                got = x.attempt(lambda: parse(x, text, ctx))
                x.expect(syntax_error(x, got), "call-syntax", f"XPathParser._func_{fn.replace('-', '_')}", f"malformed {text} {'is accepted' if got[0] == 'ok' else 'raises ' + str(got[1])}")
            if "-" in fn:
                text = f"{fn.replace('-', '_')}({', '.join([DUMMY] * lo)})"
                got = x.attempt(lambda: parse(x, text, ctx))
                x.expect(syntax_error(x, got), "unknown-function", "XPathParser._filter_expr", f"{text} {'is accepted' if got[0] == 'ok' else 'raises ' + str(got[1])}")
        for text, exc in (("id('x')", "NotSupported"), ("lang('x')", "NotSupported"), ("namespace-uri()", "NotSupported"), ("foo()", "InvalidXPath"), ("strin('x')", "InvalidXPath"), ("xname()", "InvalidXPath"),
                          ("not-a-function(1)", "InvalidXPath"), ("parse()", "InvalidXPath")):
            got = x.attempt(lambda: parse(x, text, ctx))
            x.expect(got == ("raise", exc), "unknown-function", "XPathParser._filter_expr", f"{text} gives {got!r} instead of {exc}")
    ck.scenario("arities", t, w, Config(**CFG))


def judge(x, fn, text, got, exp):
    ok = got[0] == exp[0] and (same(got[1], exp[1]) if exp[0] == "ok" else got[1] == exp[1])
    x.expect(ok, "function-result" if got[0] == exp[0] == "ok" else "function-outcome", cls(fn), f"{text} gives {got[1]!r} instead of {exp[1]!r}", x.last.loc if got[0] == "raise" else None)


def single(ck):
    """One-argument functions over every operand kind."""
    w = xworld(ck)
    extra = [("-0.5", -0.5), ("0.5", 0.5), ("1.5", 1.5), ("-1.5", -1.5), ("-2.5", -2.5), ("-(1 div 0)", -float("inf")), ("0.00001", 0.00001), ("-0.00001", -0.00001), ("1000000 * 1000000 * 1000000 * 1000000", 1e24), ("123456.75", 123456.75),
             ("'  a  b '", "  a  b "), ("'a\tb\n'", "a\tb\n"), ("'+1'", "+1"), ("'1_0'", "1_0"), ("'.5'", ".5"), ("'5.'", "5."), ("'- 5'", "- 5"), ("'inf'", "inf"), ("'NaN'", "NaN"), ("'Infinity'", "Infinity")]
    for fn, (lo, hi, ns, res, f) in FUNCTIONS.items():
        if lo > 1 or hi == 0:
            continue

        def t(x, fn=fn, ns=ns, res=res, f=f):
            c = x.sc.member(root(x), "m:c")
            ctx = sctx(x)
            for ot, v in OPERANDS + extra:
                if fn == "sum" and ot in ("bt", "bf"):
                    continue        # summing booleans as 1 and 0 is pinned by the test suite
                text = f"{fn}({ot})"
                got = evaluate(x, text, c, ctx)
                if ns and not isinstance(v, Nodes):
                    judge(x, fn, text, got, ("raise", "XPathTypeError"))
                elif f is not None:
                    judge(x, fn, text, got, ("ok", f(v)))
                else:
                    x.expect(got[0] == "ok" and isinstance(got[1], res), "result-type", cls(fn), f"{text} gives {got[1]!r}, not a {res.__name__}", x.last.loc if got[0] == "raise" else None)
                if fn in ("number", "string", "normalize-space", "string-length") and isinstance(v, Nodes) and len(v) == 1:
                    node = x.sc.member(c, ot)
                    judge(x, fn, f"{fn}() at {ot}", evaluate(x, f"{fn}()", node, ctx), ("ok", f(v)))
        ck.scenario(f"single/{fn}", t, w, Config(**CFG))


STRS = [("''", ""), ("'abcabc'", "abcabc"), ("'bc'", "bc"), ("'c'", "c"), ("'aba'", "aba"), ("'x'", "x"), ("s1", Nodes(["1"])), ("se", Nodes([""])), ("none", Nodes()), ("ll", Nodes(["1", "x", "2.5"])), ("12", 12.0), ("2.5", 2.5), ("true()", True), ("'true'", "true"), ("'1'", "1"), ("'2.5'", "2.5")]
NUMS = [("-42", -42.0), ("-3", -3.0), ("-0.5", -0.5), ("0", 0.0), ("0.5", 0.5), ("1", 1.0), ("1.5", 1.5), ("2.5", 2.5), ("3", 3.0), ("100", 100.0), ("(0 div 0)", NAN), ("(1 div 0)", float("inf")), ("(-1 div 0)", -float("inf")), ("'2'", "2"), ("i", Nodes(["1"])), ("true()", True)]


def several(ck):
    w = xworld(ck)
    for fn in ("contains", "starts-with", "substring-before", "substring-after", "concat"):
        def t(x, fn=fn):
            c, ctx, f = x.sc.member(root(x), "m:c"), sctx(x), FUNCTIONS[fn][4]
            for (at, av), (bt, bv) in itertools.product(STRS, STRS):
                text = f"{fn}({at}, {bt})"
                judge(x, fn, text, evaluate(x, text, c, ctx), ("ok", f(av, bv)))
        ck.scenario(f"several/{fn}", t, w, Config(**CFG))
    for st, sv in (("'12345'", "12345"), ("''", ""), ("12345", 12345.0), ("st", Nodes(["true"]))):
        def t(x, st=st, sv=sv):
            c, ctx = x.sc.member(root(x), "m:c"), sctx(x)
            for at, av in NUMS:
                text = f"substring({st}, {at})"
                judge(x, "substring", text, evaluate(x, text, c, ctx), ("ok", substring(sv, av)))
                for bt, bv in NUMS:
                    text = f"substring({st}, {at}, {bt})"
                    judge(x, "substring", text, evaluate(x, text, c, ctx), ("ok", substring(sv, av, bv)))
        ck.scenario(f"substring/{st}", t, w, Config(**CFG))

    def t(x):
        c, ctx = x.sc.member(root(x), "m:c"), sctx(x)
        some = [s for s in STRS if s[0] not in ("'true'", "'1'", "'2.5'")]
        for (at, av), (bt, bv), (ct, cv) in itertools.product([s for s in some if s[0] in ("'abcabc'", "''", "12", "ll")], some, some):
            text = f"translate({at}, {bt}, {ct})"
            judge(x, "translate", text, evaluate(x, text, c, ctx), ("ok", translate(av, bv, cv)))
        for a in ("'abc'", "s1", "2.5"):
            text = f"concat({a}, 'x', {a}, true(), {a})"
            v = dict(STRS + [("'abc'", "abc"), ("s1", "1")])[a]
            judge(x, "concat", text, evaluate(x, text, c, ctx), ("ok", string(v) + "x" + string(v) + "true" + string(v)))
    ck.scenario("translate", t, w, Config(**CFG))


IDS = {"id": "i1", "id2": "i2"}
NODES = [  # functions of YANG on nodes: expression, expected outcome
    ("enum-value(en)", 10.0), ("enum-value(none)", NAN), ("enum-value(s1)", NAN), ("enum-value(ls)", NAN), ("enum-value(in)", NAN), ("enum-value(. )", NAN), ("enum-value(en | s1)", None),
    ("bit-is-set(bits, 'x')", True), ("bit-is-set(bits, 'y')", False), ("bit-is-set(bits, 'z')", True), ("bit-is-set(bits, 'q')", False), ("bit-is-set(bits, '')", False),
    ("bit-is-set(none, 'x')", False), ("bit-is-set(sx, 'x')", False), ("bit-is-set(st, 'r')", False), ("bit-is-set(id, 'i1')", False), ("bit-is-set(id, 'm')", False),
    ("bit-is-set(in, 'z')", False), ("bit-is-set(i, '1')", False), ("bit-is-set(e, 'x')", False), ("bit-is-set(bits, sx)", True),
    ("derived-from(id, 'b0')", True), ("derived-from(id, 'm:b0')", True), ("derived-from(id, 'i1')", False), ("derived-from(id, 'i2')", False), ("derived-from(id, 'j')", False),
    ("derived-from-or-self(id, 'b0')", True), ("derived-from-or-self(id, 'i1')", True), ("derived-from-or-self(id, 'm:i1')", True), ("derived-from-or-self(id, 'i2')", False), ("derived-from-or-self(id, 'j')", False),
    ("derived-from(s1, 'b0')", False), ("derived-from(none, 'b0')", False), ("derived-from-or-self(in, 'b0')", False), ("derived-from-or-self(sx, 'x')", False),
    ("derived-from(s1 | id, 'b0')", True), ("derived-from(id | s1, 'b0')", True), ("derived-from-or-self(s1 | id, 'i1')", True), ("derived-from-or-self(s1 | sx, 'i1')", False),
    ("name(s1)", "s1"), ("local-name(s1)", "s1"), ("name(none)", ""), ("local-name(none)", ""), ("name(ls)", "ls"), ("name(/)", ""), ("local-name(/)", ""), ("local-name(/m:c)", "c"), ("local-name()", "c"),
    ("name(ll | ls)", None), ("local-name(in/z)", "z"),
    ("last()", 1.0), ("position()", 1.0), ("ls[last()]", Nodes(["7"])), ("ls[position() = 1]", Nodes(["5"])), ("ll[position() < 3]", Nodes(["1", "x"])), ("ll[last() - 1]", Nodes(["x"])), ("ll[position() = last()]", Nodes(["2.5"])),
    ("string(ll[2])", "x"), ("count(ll[position() > 1])", 2.0), ("ll[position()]", Nodes(["1", "x", "2.5"])), ("ll[position() + 1]", Nodes()), ("ll[count(../ls)]", Nodes(["x"])),
    ("current()/s1", Nodes(["1"])), ("ls[. = current()/s1]", Nodes()), ("in[current()/s1 = '1']/z", Nodes(["q"])), ("in/z[current()/s1 = 1]", Nodes(["q"])), ("ls[current()/ln = 3]", Nodes(["5", "7"])), ("string(current()/sx)", "x"),
    ("deref(s1)", Nodes()), ("deref(none)", Nodes()), ("deref(in)", Nodes()), ("count(deref(ll))", 0.0),
    ("re-match('ab', 'a.')", True), ("re-match('xab', 'a.')", False), ("re-match('abx', 'a.')", False), ("re-match('', '')", True), ("re-match(s1, '[0-9]')", True), ("re-match(12, '[0-9]+')", True), ("re-match('a', 'a|bc')", True), ("re-match('bc', 'a|b')", False), ("re-match('aaa', 'a{2}')", False),
    ("re-match('a', '(')", "InvalidArgument"), ("re-match('a', 'a' )", True),
    ("sum(ln | i)", 5.0), ("sum(ls)", 12.0), ("sum(ls | none)", 12.0), ("sum(d | i)", 3.5),
]


def nodes(ck):
    w = xworld(ck)
    for part in range(4):
        def t(x, part=part):
            c, ctx = x.sc.member(root(x), "m:c"), sctx(x)
            for text, exp in NODES[part::4]:
                fn = text.split("(")[0].split("[")[-1].split("/")[0] if "(" in text else "?"
                fn = next((f for f in sorted(FUNCTIONS, key=len, reverse=True) if f + "(" in text), "name")
                got = evaluate(x, text, c, ctx)
                if exp is None:
                    x.expect(got[0] == "ok" and isinstance(got[1], FUNCTIONS[fn][3]), "result-type", cls(fn), f"{text} gives {got[1]!r}")
                elif exp in ("InvalidArgument",):
                    judge(x, fn, text, got, ("raise", exp))
                else:
                    judge(x, fn, text, got, ("ok", exp))
            for fn in ("derived-from", "derived-from-or-self", "bit-is-set"):
                for ot, v in OPERANDS:
                    if not isinstance(v, Nodes):
                        text = f"{fn}({ot}, 'i1')"
                        judge(x, fn, text, evaluate(x, text, c, ctx), ("raise", "XPathTypeError"))
        ck.scenario(f"nodes/{part}", t, w, Config(**CFG))


def run(ck):
    ck.floor = 3000
    arities(ck)
    single(ck)
    several(ck)
    nodes(ck)
