"""C32: YANG text is tokenised as RFC 7950 prescribes.

The module parser is interpreted abstractly on all short texts over representatives
of the character classes the grammar tells apart, in each lexical context, and on
all single edits of modules that use every construct; the statement tree, or the
kind and place of the error, is compared with a parser written from the grammar."""
import itertools
from .common import *
from ..yangtext import parse

CFG = Config(steps=10**7, rec=200, depth=600)


def tree(x, st, sup, bad):
    f = lambda n: x.I.force(x.attr(st, n))
    v = lambda n: getattr(f(n), "val", "?")
    up = f("superstmt")
    if up is not sup if sup is not None else getattr(up, "val", "?") is not None:
        bad.append("superstmt of " + str(v("keyword")))
    return (v("prefix"), v("keyword"), v("argument"), [tree(x, s, st, bad) for s in x.I.iterate(f("substatements"))])


def run_parser(x, text, name=None, rev=None):
    """What the library makes of a text, in the form of yangtext.parse."""
    bad = []

    def go():
        p = x.I.instantiate(x.p.cls("ModuleParser"), [K(text), K(name), K(rev if rev is not None else "")], {})
        return x.call(p, "parse")
    r = x.attempt(go)
    if r[0] == "ok":
        t = tree(x, r[1], None, bad)
        return ("ok", t) if not bad else ("bad-link", bad[0], None)
    n, exc = r[1], x.last.exc
    at = None
    if n in ("UnexpectedInput", "EndOfInput"):
        o = x.I.force(x.attr(x.attr(exc, "parser"), "offset"))
        at = getattr(o, "val", None)
    return ("bad", {"UnexpectedInput": "unexpected", "EndOfInput": "end", "InvalidArgument": "escape"}.get(n, n), at)


def judge(x, text, cons):
    exp = parse(text)
    if exp[0] == "open":
        return
    got = run_parser(x, text)
    if exp[0] == "ok":
        rule, ok = ("text-accepted", False) if got[0] != "ok" else ("statement-tree", got[1] == exp[1])
    else:
        rule = "text-rejected"
        ok = got[0] == "bad" and got[1] == exp[1]
        if ok and exp[1] == "unexpected":
            rule, ok = "error-position", got[2] == exp[2]
    x.expect(ok, rule, cons, f"{text!r} gives {got[1:] if got[0] != 'ok' else show(got[1])}, expected {exp[1:] if exp[0] != 'ok' else show(exp[1])}", x.last.loc if got[0] == "bad" else None)


def show(t):
    return f"{t[0] + ':' if t[0] else ''}{t[1]} {t[2]!r}" + ("{" + "; ".join(show(s) for s in t[3]) + "}" if t[3] else "")


def words(alpha, n):
    return ("".join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k))


def contexts(deep):
    """(what, texts): all words over the characters that matter, in each place of a module."""
    d = 1 if deep else 0
    yield "separator", [f"module m{w}{{}}" for w in words(" \n\r/*x", 4 + d) if w]
    yield "separator before", [f"{w}module m{{}}" for w in words(" \t\n\r/*", 3 + d)]
    yield "separator inside", [f"module m{{{w}}}" for w in words(" \n\r/*", 4 + d)]
    yield "separator after", [f"module m{{}}{w}" for w in words(" \n\r/*x", 3 + d)]
    yield "block comment", [f"module m{{/*{w}*/a;}}" for w in words("/*\n}\"", 4 + d)]
    yield "line comment", [f"module m{{//{w}\na;}}" for w in words("/*;\r'", 3 + d)]
    yield "unquoted", [f"module m{{a {w};}}" for w in words("/*x+:{ ", 4 + d) if w]
    yield "unquoted characters", [f"module m{{a x{c}y;}}" for c in map(chr, (*range(1, 127), 0xe9, 0x4e2d, 0x1f600))]
    yield "double quoted", [f"module m{{a \"{w}\";}}" for w in words("\\\"nx'+", 4 + d)]
    yield "escapes", [f"module m{{a \"{p}\\{c}{q}\";}}" for c in map(chr, (*range(9, 127), 0xe9)) for p, q in (("", ""), ("x\\\\", "y"))]
    yield "layout", [f"module m{{\n  a{s}\"{w}\";}}" for s in (" ", "\n   ", "\n       ", "    ") for w in words(" \n\tx", 4 + d)] + [f"module m{{\n a \"x{w}y\";}}" for w in words(" \n\r\\", 4 + d)]
    yield "layout of parts", [f"module m{{\na \"u\" +{p}\"x\n{' ' * k}y{e}\"{q};}}" for k in range(9) for p in ("", "  ", "\n ") for e in ("", " ", " \n") for q in ("", "+'\n  z'", "\n +\n\"z\n   v\"")]
    yield "single quoted", [f"module m{{a '{w}';}}" for w in words("\\\"'\n+ ", 3 + d)]
    yield "concatenation", [f"module m{{a {w};}}" for w in words(["'x'", '"y"', "+", " ", "z", "/**/"], 4 + d) if w]
    yield "keyword", [f"module m{{{w};}}" for w in words("a:-. 1\"", 4 + d) if w] + [f"module m{{k{c}l;}}" for c in map(chr, (*range(1, 127), 0xe9))] + [f"module m{{{c}k;}}" for c in map(chr, (*range(1, 127), 0xe9))]
    yield "nesting", [f"module m{{{w}}}" for w in words(["a", ";", "{", "}", " "], 5 + d)]
    yield "top", ["submodule s {}", "modul m {}", "modules m;", "container m {}", "module m;", "submodule s;", "module;", "module {}", "module", "", " ", "\n", "// x", "/* x */", "module m {} module n {}", "module m {};", "module m { a; } }", "module 'm' {}", "module \"m\"+'n' { x:y z; }",
                  "\ufeffmodule m {}", "{", "}", ";", "'m'", "m:n o;", "MODULE m {}"]


MODULES = ['''module m {
  /* c */ prefix p; // x
  e:x "a \\"b\\"
       c" + 'd\\n' { input { leaf l { type string; } } }
  f "\\t\\\\"; g 1..2|4; h a/b;
}
''', "submodule s{belongs-to m{prefix m;}\r\n\r\n description 'it /* is */'\n+ \"// {}\";}"]


def edits(deep):
    for n, m in enumerate(MODULES):
        yield f"truncated {n}", [m[:i] for i in range(len(m))]
        yield f"shortened {n}", [m[:i] + m[i + 1:] for i in range(len(m))]
        for c in ";{}\"'/*\\+: " + ("\n\rx-1" if deep else ""):
            yield f"with {c} added {n}", [m[:i] + c + m[i:] for i in range(len(m) + 1)]
        if deep:
            yield f"swapped {n}", [m[:i] + m[i + 1] + m[i] + m[i + 2:] for i in range(len(m) - 1)]


def texts(ck):
    deep = ck.tier != "quick"
    for what, ts in itertools.chain(contexts(deep), edits(deep)):
        ts = sorted(set(ts))
        size = 60
        for k in range(0, len(ts), size):
            def t(x, what=what, part=ts[k:k + size]):
                for text in part:
                    judge(x, text, f"ModuleParser {what.split(' with ')[0].split(' 0')[0]}")
            ck.scenario(f"{what}/{k // size}", t, None, CFG)


def identity(ck):
    """Name and revision of a parsed module are checked against the ones asked for."""
    R = "module m { %s revision 2020-01-02; %s }"

    def t(x):
        for text, mod, rev in [("module m { a; }", "m", ""), (R % ("", ""), "m", "2020-01-02"), (R % ("", "revision 2019-01-01;"), "m", "2020-01-02"), (R % ("x:revision 2021-01-01;", ""), "m", "2020-01-02"), (R % ("container c { revision 2021-01-01; }", ""), "m", "2020-01-02"),
                               ("submodule s { revision '2020-01-02'; }", "s", "2020-01-02"), ("module m { revision 2020-01-02 { description x; } }", "m", "2020-01-02"), ("module \"m\" { x:revision 2021-01-01; }", "m", "")]:
            for name in ("m", "s", "M", "mm", "", None):
                for r in ("", "2020-01-02", "2019-01-01", "2021-01-01"):
                    got = run_parser(x, text, name, r)
                    exp = "ModuleNameMismatch" if name is not None and name != mod else "ModuleRevisionMismatch" if r != rev else None
                    x.expect(got[1] == exp if exp else got[0] == "ok", "module-identity", "ModuleParser.parse", f"{text!r} asked for as {name}@{r} gives {got[1]!r}, expected {exp or 'acceptance'}", x.last.loc if got[0] == "bad" else None)
                    if exp and got[1] == exp:
                        f, e = (plain(x, x.attr(x.last.exc, a)) for a in ("found", "expected"))
                        w = (mod, name) if "Name" in exp else (rev, r)
                        x.expect((f, e) == w, "module-identity", exp, f"{exp} for {text!r} asked for as {name}@{r} has found {f!r}, expected {e!r}", None)
    ck.scenario("identity", t, None, CFG)


def depth(ck):
    """The depth of the recursion does not grow with the length of a string or of a sequence."""
    from ..interp import Cut

    def t(x):
        for what, text in [("escape sequences", 'module m{a "' + r'\"' * 40 + '";}'), ("comments", "module m" + "/**/" * 40 + "{}"), ("statements", "module m{" + "a;" * 40 + "}"), ("lines", 'module m{a "' + "x\n" * 40 + '";}'), ("characters", "module m{a " + "x" * 40 + "/y;}")]:
            try:
                got = run_parser(x, text)
            except Cut as e:
                got = ("cut", str(e))
            x.expect(got[0] == "ok", "bounded-depth", f"ModuleParser {what}", f"a text with 40 {what}: {got[1]}; the depth of recursion grows with the length of the text", None)
    ck.scenario("depth", t, None, Config(steps=10**7, rec=20, depth=600, while_max=10**6))


def plain(x, v):
    return getattr(x.I.force(v), "val", "?")


def run(ck):
    ck.floor = 17000
    identity(ck)
    depth(ck)
    texts(ck)
