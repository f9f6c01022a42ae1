"""C16: XPath grammar - precedence, associativity, complete consumption.

The parser is interpreted on every operator pair (and triple of levels); the
tree of an expression must equal the tree of the same expression with the
parentheses that the XPath 1.0 grammar implies.  Abbreviations, whitespace
and malformed text are enumerated; every schema statement carrying an XPath
expression is built with and without a trailing remainder."""
import itertools
import os
from .common import *
from .xp import xworld, sctx, parse
from ..world import S, leaf as sleaf, module, ModelRejected, WorldError
CFG = dict(steps=10**8, rec=300, depth=500)

LEVELS = [("or",), ("and",), ("=", "!="), ("<", "<=", ">", ">="), ("+", "-"), ("*", "div", "mod"), None, ("|",)]
PREC = {o: i for i, l in enumerate(LEVELS) if l for o in l}
OPS = list(PREC)
NEG = 6
UNITS = ["m:s1", "1", "'x'", "count(m:ll)", "..", "*", "(m:a)", "/m:c", ".5", "m:ll[1]", "a-b", "@" if False else "self::node()", "//m:z", "or", "div"]


def tree(x, e, depth=0):
    """Comparable form of an expression tree; parentheses leave no trace."""
    e = x.I.force(e)
    if isinstance(e, Obj) and e.payload is not None:
        e = e.payload
    if isinstance(e, Lst):
        return [tree(x, i, depth + 1) for i in e.items]
    if isinstance(e, K):
        return ("k", type(e.val).__name__, str(e.val))
    if isinstance(e, Obj):
        f = {k: v for k, v in e.fields.items() if k not in ("sctx", "sd", "offset")}
        if set(f) == {"primary", "predicates"} and tree(x, f["predicates"]) == []:
            return tree(x, f["primary"], depth)
        if set(f) == {"expr", "negate"}:        # a chain of minus signs is as good as its parity
            sub, neg = tree(x, f["expr"], depth), x.I.truth(f["negate"])
            return ("minus", neg ^ sub[1], sub[2]) if sub[0] == "minus" else ("minus", neg, sub)
        return (getattr(e.cls, "name", "?"), {k: tree(x, v, depth + 1) for k, v in sorted(f.items())})
    return repr(e)


def parsed(x, text, ctx):
    """Tree of a completely consumed expression | ("raise", cls) | ("rest",)."""
    def go():
        e, end = parse(x, text, ctx)
        return K("rest") if not end else e
    r = x.attempt(go)
    if r[0] == "raise":
        return ("raise", r[1], bool(isinstance(x.last.exc.cls, Cls) and x.p.issub(x.last.exc.cls, x.p.cls("YangsonException"))))
    return ("rest",) if isinstance(r[1], K) else ("ok", tree(x, r[1]), r[1])


def group(toks):
    """Fully parenthesised text of operand, op, operand, ... (op may be the pair of a binary operator and unary minus)."""
    def expr(i, level):
        if level == len(LEVELS):
            return toks[i], i + 1
        if level == NEG:
            if toks[i] == "-":
                e, i = expr(i + 1, NEG)
                return f"(- {e})", i
            return expr(i, level + 1)
        e, i = expr(i, level + 1)
        while i < len(toks) and toks[i] in LEVELS[level]:
            o = toks[i]
            r, i = expr(i + 1, level + 1)
            e = f"({e} {o} {r})"
        return e, i
    e, i = expr(0, 0)
    assert i == len(toks), toks
    return e


def same_tree(x, ctx, text, ref, rule, construct, what="is not parsed like"):
    a, b = parsed(x, text, ctx), parsed(x, ref, ctx)
    x.expect(a[0] == "ok" and b[0] == "ok" and a[1] == b[1], rule, construct, f"{text} {what} {ref}" + (f" ({a[:2]})" if a[0] != "ok" else f" ({ref}: {b[:2]})" if b[0] != "ok" else ""),
             x.last.loc if a[0] == "raise" else None)
    return a, b


METH = ["_or_expr", "_and_expr", "_equality_expr", "_relational_expr", "_additive_expr", "_multiplicative_expr", "_unary_minus_expr", "_union_expr"]


def precedence(ck, w):
    for o1 in OPS:
        def t(x, o1=o1):
            ctx = sctx(x)
            for o2 in OPS:
                for toks in ([ "m:s1", o1, "m:s2", o2, "m:i"], ["-", "m:s1", o1, "m:s2", o2, "m:i"],
                             *([["m:s1", o1, "-", "m:s2", o2, "m:i"]] if o1 != "|" else []), *([["m:s1", o1, "m:s2", o2, "-", "m:i"]] if o2 != "|" else []),
                             *([["m:s1", o1, "-", "-", "m:s2", o2, "m:i"]] if o1 != "|" else [])):
                    text, ref = " ".join(toks), group(toks)
                    c = "XPathParser." + METH[min(PREC[o1], PREC[o2])]
                    a, b = same_tree(x, ctx, text, ref, "precedence", c)
                    if a[0] == "ok" and a[1] == b[1] and b[0] == "ok" and "-" not in toks[:1]:
                        other = f"m:s1 {o1} (m:s2 {o2} m:i)" if PREC[o1] >= PREC[o2] else f"(m:s1 {o1} m:s2) {o2} m:i"
                        if toks == ["m:s1", o1, "m:s2", o2, "m:i"]:
                            d = parsed(x, other, ctx)
                            x.expect(d[0] == "ok" and d[1] != a[1], "grouping-kept", "XPathParser._filter_expr", f"parentheses in {other} make no difference")
                            if d[0] == "ok":
                                x.expect(str_(x, d[2]) != str_(x, a[2]), "grouping-printed", "FilterExpr.__str__", f"{other} and {text} have the same string form {str_(x, d[2])!r}")
            for o2, o3 in itertools.product(OPS if ck.tier == "thorough" else [l[-1] for l in LEVELS if l], repeat=2):
                toks = ["m:s1", o1, "1", o2, "m:s2", o3, "'x'"]
                same_tree(x, ctx, " ".join(toks), group(toks), "precedence", "XPathParser." + METH[min(PREC[o] for o in (o1, o2, o3))])
            for u, v in itertools.product(UNITS, repeat=2):
                if ck.tier != "thorough" and UNITS.index(u) and UNITS.index(v):
                    continue
                same_tree(x, ctx, f"{u} {o1} {v}", f"({u}) {o1} ({v})", "operands", "XPathParser." + METH[PREC[o1]])
                if o1 not in ("|", "-") and not o1.isalpha() and not (u == "a-b" and o1 == "-"):
                    same_tree(x, ctx, f"{u}{o1}{v}", f"({u}) {o1} ({v})", "operator-spacing", "XPathParser." + METH[PREC[o1]])
            for text in (f"m:s1 {o1}", f"{o1} m:s1" if o1 not in ("-",) else "m:s1 - ", f"(m:s1 {o1})", f"m:s1 {o1} {o1} {o1}" if o1 not in ("-", "*") and not o1.isalpha() else f"m:s1 {o1} ",
                         f"m:s1 {o1} )", f"m:s1 {o1} ]", f"count(m:s1 {o1})"):
                reject(x, ctx, text, "XPathParser." + METH[PREC[o1]])
            if o1.isalpha():
                for text in (f"m:s1 {o1}x 1", f"m:s1 {o1}1 ", f"m:s1 {o1}m:s1", f"m:s1 {o1}-1", f"1 {o1}.5", f"m:s1 {o1.upper()} 1"):
                    reject(x, ctx, text, "XPathParser." + METH[PREC[o1]])
                for text in (f"m:s1 {o1}(1)", f"m:s1 {o1}'x'", f"(m:s1){o1}(1)", f"'x'{o1}'y'", f"m:ll[1]{o1} 1", f"1 {o1}/m:c", f"m:s1\n{o1}\t1"):
                    same_tree(x, ctx, text, text.replace(o1, f" {o1} "), "operator-spacing", "XPathParser." + METH[PREC[o1]])
        ck.scenario(f"operator {o1}", t, w, Config(**CFG))


def str_(x, e):
    s = x.I.force(x.I.str_(e))
    return s.val if isinstance(s, K) else repr(s)


def reject(x, ctx, text, construct):
    a = parsed(x, text, ctx)
    x.expect(a[0] == "rest" or a[0] == "raise" and a[2], "malformed-rejected", construct, f"malformed {text!r} " + ("is accepted" if a[0] == "ok" else f"raises {a[1:2]}"))


ABBREV = [("m:s1", "child::m:s1"), (".", "self::node()"), ("..", "parent::node()"), ("*", "child::*"), ("node()", "child::node()"),
          ("//m:z", "/descendant-or-self::node()/m:z"), ("m:in//m:z", "m:in/descendant-or-self::node()/child::m:z"), (".//m:z", "self::node()/descendant-or-self::node()/m:z"),
          ("//*", "/descendant-or-self::node()/child::*"), ("//..", "/descendant-or-self::node()/parent::node()"), ("../../m:c", "parent::node()/parent::node()/child::m:c"),
          ("s1", "m:s1"), ("/m:c/m:s1", "/child::m:c/child::m:s1"), ("(m:in)//m:z", "(m:in)/descendant-or-self::node()/m:z"), ("current()//m:z", "current()/descendant-or-self::node()/m:z"),
          ("deref(m:s1)/../m:z", "deref(m:s1)/parent::node()/child::m:z"), ("m:a[m:b]//m:c[1]", "m:a[child::m:b]/descendant-or-self::node()/m:c[1]"),
          ("--1", "-(-1)"), ("- - -1", "-(-(-1))"), ("5.", "5"), ("5.0", "5"), (".50", "0.5"), ("'x'", '"x"'), ("((1))", "1"), ("((m:a)[1])", "(m:a)[1]"),
          ("m:a[m:b][1]", "m:a[(m:b)][(1)]"), ("(m:a | m:b)[1]", "((m:a) | (m:b))[1]"), ("descendant::m:z[1]/..", "descendant::m:z[1]/parent::node()"),
          ("/ | /m:c", "(/) | (/m:c)"), ("/ = 1", "(/) = 1"), ("count(/)", "count((/))"), ("/ or 1" if False else "(/) or 1", "((/)) or (1)"), ("m:a[/]", "m:a[(/)]")]
DISTINCT = [("m:a[1]", "(m:a)[1]" if False else "m:a"), ("m:a/m:b", "m:a//m:b"), ("m:a[m:b]/m:c", "m:a/m:c[m:b]"), ("(m:a/m:b)[1]", "m:a/m:b[1]"), ("(//m:a)[1]", "//m:a[1]"), ("/m:a", "m:a"), ("//m:a", "/m:a"),
            ("(m:a)//m:b", "(m:a)/m:b"), ("m:a[1][m:b]", "m:a[m:b][1]"), ("ancestor::m:a", "ancestor-or-self::m:a"), ("m:a", "m:b"), ("1", "'1'"), ("a - b", "a-b"), ("-1", "1"), ("--m:a" if False else "-m:a", "m:a"),
            ("(m:a)//m:b", "(m:a) | //m:b")]
TOKENS = [["m:a", "[", "m:b", "=", "1", "]", "/", "m:c"], ["/", "m:c", "/", "m:in", "//", "m:z"], ["count", "(", "m:ll", "[", "position", "(", ")", "<", "2", "]", ")", "+", "1"],
          ["ancestor-or-self", "::", "m:a", "[", "last", "(", ")", "]", "/", ".."], ["self", "::", "node", "(", ")"], ["child", "::", "*", "[", ".", "=", "'x'", "]"],
          ["(", "m:a", "|", "m:b", ")", "[", "1", "]", "/", "m:c"], ["deref", "(", ".", ")", "//", "m:z"], ["concat", "(", "'a'", ",", "m:s1", ",", "\"b\"", ")"], ["-", "m:a", "*", "2"],
          ["//", "m:a", "/", "parent", "::", "m:b"], ["not", "(", "m:a", "!=", "m:b", ")"], ["(", "m:a", ")", "//", "m:b"], ["substring", "(", "m:s1", ",", "2", ")", ">=", "3"], ["node", "(", ")", "/", "*"]]
MALFORMED = ["", " ", "m:a m:b", "m:a/", "//", "/m:a/", "m:a//", "///m:a", "m:a///m:b", "/ /m:a", "m:a/ /m:b", "m:a[", "m:a]", "m:a[]", "m:a[1", "(m:a", "m:a)", "()", "m:a()", "count(m:a", "count(m:a))", "count(m:a,)", "count(,m:a)",
             "'x", "\"x", "'x\"", "1 2", "1.2.3", "1..", "m:a b", "m :a", "m: a", "m:", ":a", "m:a:b", "child::", "::a", "child:a::b", "child::child::a", "a ! = b", "a =! b", "a == b", "a => b", "a < > b", "a <> b", "a && b", "a || b",
             "a ! b", "!a", "a |", "| a", "a | | b", "a | -b", "a,b", "$x", "a $x", "#", "a # b", "a ; b", "a[1]b", "a[1](2)", "not a", "a/(b)", "a/1", "a/'x'", "/1", "//1", "1/a", "'x'/a" , "a[1]]", "((a)", "a)(", "+a", "a + + b", "a -", "position(", "node(", "node()b",
             "child::node(x)", "a and", "and and", "a div", "{a}", "a:b:c", "a[b", "a[b]c", "a{1}", "/ * 2", "@", "\\", "a\\b", ".a", "...", "a. b", "1a", "1 a", "2m:a", "a'x'", "'x'a", "'x''y'"]


def grammar(ck, w):
    def abbrev(x):
        ctx = sctx(x)
        for a, b in ABBREV:
            same_tree(x, ctx, a, b, "abbreviation", "XPathParser._location_path")
        for a, b in DISTINCT:
            p, q = parsed(x, a, ctx), parsed(x, b, ctx)
            x.expect(p[0] == q[0] == "ok" and p[1] != q[1], "distinct", "XPathParser._path_expr", f"{a} and {b} are not told apart ({p[:2]}, {q[:2]})")
    ck.scenario("abbreviations", abbrev, w, Config(**CFG))

    def spacing(x):
        ctx = sctx(x)
        for toks in TOKENS:
            ref = "".join(toks)
            for text in (" ".join(toks), "  ".join(toks), "\n".join(toks), "\t".join(toks), "\r\n ".join(toks), " " + ref, ref + " ", "\n" + ref + "\n", *(
                    "".join(toks[:i]) + s + "".join(toks[i:]) for i in range(1, len(toks)) for s in (" ", "\n\t "))):
                same_tree(x, ctx, text, ref, "whitespace", "XPathParser.parse")
    ck.scenario("whitespace", spacing, w, Config(**CFG))

    def malformed(x):
        ctx = sctx(x)
        for text in MALFORMED:
            reject(x, ctx, text, "XPathParser.parse")
    ck.scenario("malformed", malformed, w, Config(**CFG))

    def truncated(x):
        ctx = sctx(x)
        for toks in TOKENS:
            for i in range(1, len(toks)):
                text = "".join(toks[:i])
                if text.count("(") == text.count(")") and text.count("[") == text.count("]") and toks[i - 1] not in ("/", "//", "::", "|", ",", "-", "*", "+", "=", "<", ">=", "!=") and toks[i - 1] not in ("count", "concat", "deref", "not", "substring"):
                    continue
                if toks[i - 1] == "/" and i == 1 or toks[i - 1] == "*" and text != "-m:a*" or text in ("count", "node", "concat", "deref", "not", "substring"):
                    continue
                reject(x, ctx, text, "XPathParser.parse")
            for junk in ("]", ")", "'", "m:q", "1", "!", ",", "(", "[", "::", ":", "=", "$"):
                reject(x, ctx, "".join(toks) + " " + junk, "XPathParser.parse")
    ck.scenario("truncated", truncated, w, Config(**CFG))


def stmts():
    """name -> function of the XPath text giving the modules of a model."""
    g = S("grouping", "g", S("container", "gc", sleaf("x")))
    base = (sleaf("a"), sleaf("b"), S("list", "l", S("key", "k"), sleaf("k"), sleaf("u"), sleaf("v")))

    def m(*subs, extra=()):
        return [module("m", g, S("container", "c", *base, *subs), *extra)]

    def two(dev):
        n = module("n", S("import", "m", S("prefix", "m")), S("deviation", "/m:c/m:lf", S("deviate", dev[0], S("must", dev[1]))))
        return [module("m", g, S("container", "c", *base, sleaf("lf", "string", S("must", "../a")))), n]
    return {
        "must of a leaf": ("must", lambda t: m(sleaf("x", "string", S("must", t)))),
        "must of a container": ("must", lambda t: m(S("container", "y", S("must", t)))),
        "must of a list": ("must", lambda t: m(S("list", "y", S("key", "k"), sleaf("k"), S("must", t)))),
        "must of a leaf-list": ("must", lambda t: m(S("leaf-list", "y", S("type", "string"), S("must", t)))),
        "must of anydata": ("must", lambda t: m(S("anydata", "y", S("must", t)))),
        "must of an rpc input": ("must", lambda t: m(extra=[S("rpc", "op", S("input", None, S("must", t), sleaf("a")))])),
        "must of an rpc output": ("must", lambda t: m(extra=[S("rpc", "op", S("output", None, S("must", t), sleaf("a")))])),
        "must of a notification": ("must", lambda t: m(extra=[S("notification", "nt", S("must", t), sleaf("a"))])),
        "when of a leaf": ("when", lambda t: m(sleaf("x", "string", S("when", t)))),
        "when of a container": ("when", lambda t: m(S("container", "y", S("when", t)))),
        "when of a choice": ("when", lambda t: m(S("choice", "ch", S("when", t), sleaf("x")))),
        "when of a case": ("when", lambda t: m(S("choice", "ch", S("case", "x", S("when", t), sleaf("x"))))),
        "when of a list": ("when", lambda t: m(S("list", "y", S("key", "k"), sleaf("k"), S("when", t)))),
        "when of uses": ("when", lambda t: m(S("uses", "g", S("when", t)))),
        "when of augment": ("when", lambda t: m(extra=[S("augment", "/c", S("when", t), sleaf("x"))])),
        "when of augment in uses": ("when", lambda t: m(S("uses", "g", S("augment", "gc", S("when", t), sleaf("y"))))),
        "must of refine": ("must", lambda t: m(S("uses", "g", S("refine", "gc/x", S("must", t))))),
        "must of deviate add": ("must", lambda t: two(("add", t))),
        "must of deviate delete": ("must", lambda t: two(("delete", t))),
        "path of leafref": ("path", lambda t: m(sleaf("x", S("type", "leafref", S("path", t))))),
        "path of leafref in a typedef": ("path", lambda t: m(sleaf("x", "lt"), extra=[S("typedef", "lt", S("type", "leafref", S("path", t)))])),
        "path of leafref in a union": ("path", lambda t: m(sleaf("x", S("type", "union", S("type", "leafref", S("path", t)), S("type", "string"))))),
        "unique": ("unique", lambda t: m(S("list", "y", S("key", "k"), sleaf("k"), sleaf("u"), sleaf("v"), S("unique", t)))),
        "default of instance-identifier": ("iid", lambda t: m(sleaf("x", "instance-identifier", S("default", t)))),
    }


GOOD = {"must": ["../a", "1 = 1", "/m:c/m:a or not(../b)"], "when": ["../a", "../a = 'x'"], "path": ["/m:c/m:a", "../a", "../l[m:k = current()/../b]/m:u" if False else "../l/k"], "unique": ["u", "u v", "m:u"], "iid": ["/m:c/m:a", "/m:c/m:l[m:k='1']/m:u"]}
REST = [" )", "]", " ../b", " 1", "'", "/", " or", " garbage", "[", "::x", "$"]


def statements(ck):
    from ..world import World
    from .c19 import lazily
    good_ = world(ck, "c19", lambda p: World(p, [module("m", sleaf("t"))]))
    for name, (kind, make) in stmts().items():
        def t(x, name=name, kind=kind, make=make):
            for text, good in [(t, True) for t in GOOD[kind]] + [(GOOD[kind][0] + r, False) for r in REST if not (kind == "unique" and r[0] == " ")]:
                try:
                    World(x.p, make(text)).prepare()
                    r = "ok"
                except ModelRejected:
                    r = "rejected"
                except WorldError as e:
                    r = f"fails ({e})"
                x.expect(r == ("ok" if good else "rejected"), "statement-consumed", STMT.get(kind, "SchemaNode") if "deviate delete" not in name else "SchemaNode._deviate_must", f"{name}: {text!r} {'is accepted' if r == 'ok' else r}")
        lazily(ck, "statement/" + name.replace(" ", "-"), t, good_)


STMT = {"must": "SchemaNode._must_stmt", "when": "SchemaNode._when_stmt", "path": "LeafrefType._handle_properties", "unique": "ListNode._parse_unique", "iid": "InstanceIdentifierType.from_yang"}


def run(ck):
    ck.floor = 2500
    w = xworld(ck)
    precedence(ck, w)
    grammar(ck, w)
    statements(ck)
