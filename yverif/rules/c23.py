"""C23: instance identifiers and resource identifiers agree with navigation.

Every node of enumerated instances is reached by navigation; its route, the
printed form of the route and its RESTCONF form must lead back to it.  Texts of
identifiers are compared with a parser written from the grammars of RFC 7950
(section 14) and RFC 8040 (section 3.5.3)."""
import itertools, json, re
from urllib.parse import quote, unquote
from .common import *
from .c11 import L
from .c28 import plain
from ..world import S, leaf as sleaf, module

T = lambda n, *b: S("type", n, *b)


class Values(list):
    """Pairs of a raw value and the texts that denote it."""

    def texts(self, raw):
        return next((t for r, t in self if r == raw and type(r) is type(raw)), [str(raw)])


V = lambda *pairs: Values(pairs)
# type -> (statement, {raw value: texts that denote it, the first one as it is printed}, texts that denote other values, texts of no value)
TYPES = {
    "string": (T("string"), V(*[(r, [r]) for r in ("a", "", "A", "a b", "1", "\u00e9", "\u4e2d/\U0001f600", "it's", 'say "x"', "back\\slash", "\\n", "\t", "n\nl", "a,b", "a/b", "a=b", "]", "['", "%2F", "+", "?#&", "a:b", ".")]), ["nix", " a"], []),
    "int8": (T("int8"), V((-5, ['-5']), (0, ['0', '-0']), (7, ['7', '+7'])), ["9"], ["x", "128", "", "1.0"]),
    "uint64": (T("uint64"), V(('18446744073709551615', ['18446744073709551615']), ('0', ['0'])), ["3"], ["-1", "x"]),
    "boolean": (T("boolean"), V((True, ['true']), (False, ['false'])), [], ["True", "1", "", "maybe", "yes"]),
    "decimal64": (T("decimal64", S("fraction-digits", "2")), V(('1.5', ['1.5', '1.50']), ('0.0', ['0.0', '0', '-0.0']), ('-2.25', ['-2.25'])), ["3.0"], ["x", "", "1e1"]),
    "empty": (T("empty"), V(([None], [''])), [], ["x"]),
    "binary": (T("binary"), V(('YWI=', ['YWI=']), ('', [''])), ["YQ=="], []),
    "enumeration": (T("enumeration", S("enum", "one"), S("enum", "two three"), S("enum", "4")), V(('one', ['one']), ('two three', ['two three'])), ["4"], ["two", "", "0"]),
    "bits": (T("bits", *[S("bit", b) for b in "qpr"]), V(('q p', ['q p', 'p q']), ('p', ['p']), ('', [''])), ["r q"], ["x"]),
    "identityref": (T("identityref", S("base", "base")), V(('m:d1', ['m:d1', 'd1']), ('n:d1', ['n:d1'])), ["m:d2"], ["n:d2", "base", "x"]),
    "instance-identifier": (T("instance-identifier", S("require-instance", "false")), V(('/m:c/y', ['/m:c/y']), ("/m:c/two[a='1'][b='2']", ['/m:c/two[a="1"][b="2"]', "/m:c/two[b='2'][a='1']"]), ('/m:top', ['/m:top'])), ["/m:c"], ["x", "/"[1:], "/m:c["]),
    "union": (T("union", T("uint8"), T("boolean"), T("string")), V((1, ['1']), (True, ['true']), ('x', ['x']), (0, ['0']), (False, ['false'])), ["5", "y"], []),
}


def typed(n):
    t = TYPES[n][0]
    return [("ll-" + n, ("leaf-list", n)), ("lk-" + n, ("list", {"k": n}, {"k": ("leaf", n), "v": ("leaf", "string")}))]


STR = ("leaf", "string")
DESC = {"m:c": ("cont", {
    **dict(x for n in TYPES for x in typed(n)),
    "st": ("leaf-list", "string"), "sb": ("leaf-list", "boolean"), "su": ("leaf-list", "union"),
    "two": ("list", {"b": "uint64", "a": "string"}, {"a": STR, "b": ("leaf", "uint64"), "in": ("list", {"x": "string"}, {"x": STR, "z": ("leaf-list", "string")}), "ic": ("cont", {"q": STR}), "n:nl": STR}),
    "kl": ("list", {}, {"x": STR, "kk": ("list", {}, {"y": STR}), "ks": ("list", {"k": "string"}, {"k": STR})}),
    "c1": STR, "c2": ("cont", {"q": STR}), "y": STR, "e": ("cont", {}), "ad": ("any",), "ax": ("any",),
    "n:nl": STR, "n:y": STR, "n:nc": ("cont", {"q": STR, "l": ("list", {"k": "string"}, {"k": STR})}), "n:nll": ("leaf-list", "string")}),
    "m:top": STR, "n:top": STR, "m:tl": ("list", {"k": "string"}, {"k": STR, "r": STR}), "m:tll": ("leaf-list", "string"), "n:c": ("cont", {"c": ("cont", {"c": STR, "o:back": STR})})}


def mods():
    ids = [S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "base"))]
    c = S("container", "c", *[x for n, (t, *_) in TYPES.items() for x in (S("leaf-list", "ll-" + n, t), S("list", "lk-" + n, S("key", "k"), sleaf("k", t), sleaf("v")))],
          S("leaf-list", "st", T("string"), S("config", "false")), S("leaf-list", "sb", T("boolean"), S("config", "false")), S("leaf-list", "su", TYPES["union"][0], S("config", "false")),
          S("list", "two", S("key", "b a"), sleaf("a"), sleaf("b", "uint64"), S("list", "in", S("key", "x"), sleaf("x"), S("leaf-list", "z", T("string"))), S("container", "ic", sleaf("q")), S("action", "act", S("input", None, sleaf("i")))),
          S("list", "kl", S("config", "false"), sleaf("x"), S("list", "kk", sleaf("y")), S("list", "ks", S("key", "k"), sleaf("k"))),
          S("choice", "ch", S("case", "cs", sleaf("c1"), S("container", "c2", sleaf("q"))), sleaf("c3")), sleaf("y"), S("container", "e"), S("anydata", "ad"), S("anyxml", "ax"))
    m = module("m", *ids, c, sleaf("top"), S("list", "tl", S("key", "k"), sleaf("k"), sleaf("r")), S("leaf-list", "tll", T("string")), S("rpc", "op", S("input", None, sleaf("i"))), S("notification", "nt", sleaf("n1")))
    n = module("n", S("import", "m", S("prefix", "m")), S("identity", "d1", S("base", "m:base")), sleaf("top"), S("container", "c", S("container", "c", sleaf("c"))),
               S("augment", "/m:c", sleaf("nl"), sleaf("y"), S("container", "nc", sleaf("q"), S("list", "l", S("key", "k"), sleaf("k"))), S("leaf-list", "nll", T("string"))), S("augment", "/m:c/m:two", sleaf("nl")))
    o = module("o", S("import", "n", S("prefix", "n")), S("augment", "/n:c/n:c", sleaf("back")))
    return [m, n, o]


DOC1 = {"m:c": {**{"ll-" + n: [r for r, _ in vs] for n, (_, vs, _, _) in TYPES.items()}, **{"lk-" + n: [{"k": r, "v": f"v{i}"} for i, (r, _) in enumerate(vs)] for n, (_, vs, _, _) in TYPES.items()}}}
DOC2 = {"m:c": {"st": ["a", "b", "a", "", "a"], "sb": [True, False, True], "su": [1, True, 0, False, True], "y": "text", "n:y": "other", "n:nl": "w", "c1": "1", "c2": {"q": "2"}, "e": {}, "ad": {"m:p": [1, 2]}, "ax": {"m:p": 1},
                "two": [{"a": "1", "b": "2", "in": [{"x": "p"}, {"x": "q", "z": ["s", "t"]}], "n:nl": "k"}, {"b": "1", "a": "2", "ic": {"q": "r"}}, {"a": "1", "b": "1"}, {"a": "", "b": "0", "in": [{"x": ""}]}],
                "kl": [{"x": "1", "kk": [{"y": "1"}, {}]}, {"x": "1"}, {"ks": [{"k": "a"}, {"k": "b"}]}], "n:nc": {"q": "1", "l": [{"k": "a"}, {"k": "b"}]}, "n:nll": ["a", "b"]},
        "m:top": "t", "n:top": "u", "m:tl": [{"k": "a", "r": "x"}, {"k": "b"}, {"k": "d", "r": "y"}], "m:tll": ["z", "a"], "n:c": {"c": {"c": "d", "o:back": "e"}}}


# ---- reference ------------------------------------------------------------------
def steps_of(doc):
    """(python path, description, reference route) of every node."""
    def walk(v, d, path, route):
        yield path, d, route, v
        if d[0] in ("cont", "list-entry"):
            for k, a in v.items():
                ns, _, nm = k.rpartition(":")
                yield from walk(a, d[-1][k], path + [k], route + [("m", nm, ns or None)])
        elif d[0] == "list":
            for i, e in enumerate(v):
                r = ("k", {(k, None): TYPES[t][1].texts(e[k]) for k, t in d[1].items()}) if d[1] else ("i", i)
                yield from walk(e, ("list-entry", d[1], d[2]), path + [i], route + [r])
        elif d[0] == "leaf-list":
            for i, e in enumerate(v):
                dup = any(type(o) is type(e) and o == e for o in v[:i])
                yield from walk(e, ("entry", d[1]), path + [i], route + [("i", i) if dup else ("v", TYPES[d[1]][1].texts(e))])
    yield from walk(doc, ("cont", DESC), [], [])


ID = r"[A-Za-z_][A-Za-z0-9_.-]*"
NODE = re.compile(rf"(?:({ID}):)?({ID})")
WS = re.compile("[ \t]*")
POS = re.compile("[1-9][0-9]*")


def ref_iid(text):
    """Route of an instance identifier by the grammar of RFC 7950, or None."""
    if text == "/":
        return []
    out, i = [], 0

    def name(i):
        m = NODE.match(text, i)
        return (m.group(2), m.group(1), m.end()) if m else None

    def quoted(i):
        i = WS.match(text, i).end()
        if text[i:i + 1] != "=":
            return None
        i = WS.match(text, i + 1).end()
        q = text[i:i + 1]
        if q not in ("'", '"') or not q:
            return None
        j = text.find(q, i + 1)
        if j < 0:
            return None
        v = text[i + 1:j]
        i = WS.match(text, j + 1).end()
        return (v, i + 1) if text[i:i + 1] == "]" else None
    while True:
        if text[i:i + 1] != "/":
            return None
        n = name(i + 1)
        if n is None:
            return None
        out.append(("m", n[0], n[1]))
        i = n[2]
        keys = {}
        first = True
        while text[i:i + 1] == "[":
            j = WS.match(text, i + 1).end()
            p = POS.match(text, j)
            if p or text[j:j + 1] == ".":
                if not first:
                    return None
                if p:
                    j = WS.match(text, p.end()).end()
                    if text[j:j + 1] != "]":
                        return None
                    out.append(("i", int(p.group()) - 1))
                    i = j + 1
                else:
                    q = quoted(j + 1)
                    if q is None:
                        return None
                    out.append(("v", q[0]))
                    i = q[1]
                break
            n = name(j)
            q = quoted(n[2]) if n else None
            if q is None:
                return None
            keys[(n[0], n[1])] = q[0]
            i = q[1]
            first = False
        if keys:
            out.append(("k", keys))
        if i == len(text):
            return out


def odd(text):
    """Texts whose treatment is left open: zero-padded positions, repeated keys."""
    return bool(re.search(r"\[[ \t]*0", text))


def repeated(text):
    return any(len(set(ks)) < len(ks) for ks in ([m for m in re.findall(rf"\[\s*((?:{ID}:)?{ID})\s*=", seg)] for seg in text.split("/")))


def child(d, nm, ns, parent_ns):
    """Description of a data child by name and module."""
    if d[0] not in ("cont", "list", "list-entry"):
        return None, None
    for k, c in d[-1].items():
        kn, _, kl = k.rpartition(":")
        if kl == nm and (kn or parent_ns) == (ns or parent_ns):
            return k, c
    return None, None


def evaluate(doc, route):
    """('ok', path) | ('absent',) | ('invalid',) for a route by the semantics of RFC 7950."""
    v, d, ns, path = doc, ("cont", DESC), None, []
    for s in route:
        if s[0] == "m":
            if d[0] not in ("cont", "list-entry"):
                return ("absent",) if d[0] == "list" else ("invalid",)
            k, c = child(d, s[1], s[2], ns)
            if k is None or k not in v:
                return ("absent",)
            ns = k.rpartition(":")[0] or ns
            v, d, path = v[k], c, path + [k]
        elif s[0] == "i":
            if d[0] not in ("list", "leaf-list"):
                return ("invalid",)
            if s[1] >= len(v):
                return ("absent",)
            v, d, path = v[s[1]], ("list-entry",) + d[1:] if d[0] == "list" else ("entry", d[1]), path + [s[1]]
        elif s[0] == "v":
            if d[0] != "leaf-list":
                return ("invalid",)
            w = value(d[1], s[1])
            if w is None:
                return ("invalid",)
            ix = [i for i, e in enumerate(v) if w(e)]
            if not ix:
                return ("absent",)
            v, d, path = v[ix[0]], ("entry", d[1]), path + [ix[0]]
        else:
            if d[0] != "list":
                return ("invalid",)
            ws = {}
            for (kn, kns), t in s[1].items():
                k, c = child(d, kn, kns, ns)
                if k is None or c[0] != "leaf":
                    return ("invalid",)
                w = value(c[1], t)
                if w is None:
                    return ("invalid",)
                ws[k] = w
            ix = [i for i, e in enumerate(v) if all(k in e and w(e[k]) for k, w in ws.items())]
            if not ix:
                return ("absent",)
            v, d, path = v[ix[0]], ("list-entry",) + d[1:], path + [ix[0]]
    return ("ok", path, v)


def value(t, text):
    """Test of raw values for being the value denoted by a text, None if it denotes no value."""
    if t == "string":
        return lambda r: r == text
    _, vs, other, bad = TYPES[t]
    if text in bad:
        return None
    for raw, texts in vs:
        if text in texts:
            return lambda r: type(r) is type(raw) and r == raw
    if text not in other:
        if t == "uint64" and text.isdigit():
            return lambda r: r == text
        raise AssertionError(f"unknown text {text!r} of {t}")
    return lambda r: False


def ref_rid(text):
    """Route of a resource identifier (RFC 8040), an error name or None (left open)."""
    if text in ("", "/"):
        return []
    if text[0] == "/":
        text = text[1:]
    d, ns, out = ("cont", DESC), None, []
    segs = text.split("/")
    for i, seg in enumerate(segs):
        last = i == len(segs) - 1
        m = NODE.match(seg)
        if not m:
            return None if last and seg == "" and out and out[-1][0] != "m" else "UnexpectedInput"
        pre, nm = m.groups()
        rest = seg[m.end():]
        k, c = child(d, nm, pre, ns)
        if rest[:1] == ":" or (k is None and rest and rest[0] != "="):
            return "either"
        if k is None:
            if (nm == "act" and pre in (None, "m") and d[0] in ("list", "list-entry") and "ic" in d[-1]) or (nm == "op" and not out and pre == "m"):
                return out + [("a", nm, pre)] if last and not rest else "either"
            return "NonexistentSchemaNode"
        out.append(("m", nm, pre))
        ns = k.rpartition(":")[0] or ns
        if c[0] in ("list", "leaf-list") and rest[:1] == "=":
            ks = rest[1:].split(",") if c[0] == "list" else [rest[1:]]
            if ks == [""]:
                return None
            if c[0] == "leaf-list":
                out.append(("v", unquote(ks[0])))
                c = ("entry",)
            elif len(ks) != len(c[1]) or not c[1]:
                return "UnexpectedInput"
            else:
                out.append(("k", {(kn, None): unquote(v) for kn, v in zip(c[1], ks)}))
                c = ("list-entry",) + c[1:]
        elif rest:
            return "UnexpectedInput"
        elif c[0] in ("list", "leaf-list") and not last:
            return "UnexpectedInput"
        d = c
    return out


# ---- comparison -----------------------------------------------------------------
def items(x, route):
    """Abstract route as data."""
    route = x.I.force(route)
    if isinstance(route, Obj) and route.payload is not None:
        route = route.payload
    out = []
    for s in route.items:
        c = s.cls.name
        if c in ("MemberName", "ActionName"):
            out.append(("m" if c == "MemberName" else "a", plain(x, x.attr(s, "name")), plain(x, x.attr(s, "namespace"))))
        elif c == "EntryIndex":
            out.append(("i", plain(x, x.attr(s, "index"))))
        elif c == "EntryValue":
            out.append(("v", plain(x, x.attr(s, "value"))))
        else:
            out.append(("k", {tuple(k): v for k, v in plain(x, x.attr(s, "keys")).items()}))
    return out


def fits(got, want):
    """Does a route equal a reference route (which lists several texts per value)?"""
    if got is None or len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0]:
            return False
        if g[0] == "v":
            if g[1] not in w[1]:
                return False
        elif g[0] == "k":
            if set(g[1]) != set(w[1]) or any(g[1][k] not in w[1][k] for k in w[1]):
                return False
        elif g != w:
            return False
    return True


def pointer(path):
    return "/" + "/".join(map(str, path))


def at(x, root, path):
    for p in path:
        root = x.I.getitem(root, K(p))
    return root


def where(x, r):
    return plain(x, x.call(r, "json_pointer"))


def show(route):
    return "".join(f"/{s[2] + ':' if s[2] else ''}{s[1]}" if s[0] in "ma" else f"[{s[1] + 1}]" if s[0] == "i" else f"[.={s[1]}]" if s[0] == "v" else "".join(f"[{k[0]}={t}]" for k, t in s[1].items()) for s in route).replace('"', "''").replace("\n", "\\n") or "/"


def leads(x, start, route, path, v, cons, what):
    g = x.attempt(lambda: x.call(start, "goto", route))
    if x.expect(g[0] == "ok", "route-leads-to-node", cons, f"goto along {what} raises {g[1]}", x.last.loc if g[0] == "raise" else None):
        w = where(x, g[1])
        x.expect(w == pointer(path), "route-leads-to-node", cons, f"{what} leads to {w} and not to {pointer(path)}")
        a = x.attr(g[1], "value")
        x.expect(same_value(x, a, v), "route-leads-to-node", cons, f"value of {what} is {plain(x, a)!r}")
    p = x.attempt(lambda: x.call(start, "peek", route))
    if x.expect(p[0] == "ok", "look-up-agrees", cons.replace("goto", "peek"), f"peek along {what} raises {p[1]}", x.last.loc if p[0] == "raise" else None):
        x.expect(same_value(x, p[1], v), "look-up-agrees", cons.replace("goto", "peek"), f"peek along {what} gives {plain(x, p[1])!r}")


def same_value(x, a, v):
    return term_of(x.I.force(a)) == term_of(x.I.force(v)) if not isinstance(v, (dict, list)) else plain(x, a) == v


def api(route):
    """RESTCONF form of a reference route."""
    out = ""
    for s in route:
        if s[0] == "m":
            out += f"/{s[2] + ':' if s[2] else ''}{s[1]}"
        elif s[0] == "v":
            out += "=" + quote(s[1][0], safe="")
        else:
            out += "=" + ",".join(quote(v[0], safe="") for v in s[1].values())
    return out


def wld(ck):
    return world(ck, "c23", lambda p: World(p, mods()))


def nodes(ck, name, doc, part=None):
    w = wld(ck)

    def t(x):
        r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(doc)))
        if not x.expect(r[0] == "ok", "valid-accepted", "DataModel.from_raw", f"{name} cannot be decoded: {r[1]}"):
            return
        root = r[1]
        for path, d, want, v in steps_of(doc):
            n = at(x, root, path)
            val = x.attr(n, "value")
            ptr = pointer(path).replace("\n", "\\n")
            if path:
                x.expect(where(x, n) == pointer(path), "json-pointer", "InstanceNode.json_pointer", f"pointer of {ptr} is {where(x, n)}")
            rt = x.attempt(lambda: x.call(n, "instance_route"))
            cons = {"entry": "ArrayEntry", "list-entry": "ArrayEntry"}.get(d[0], "ObjectMember") + "._instance_route_entry"
            if not x.expect(rt[0] == "ok", "route-exists", cons, f"route of {ptr}: {rt[1]}"):
                continue
            got = items(x, rt[1])
            x.expect(fits(got, want), "route-of-node", cons, f"route of {ptr} is {show(got)}")
            leads(x, root, rt[1], path, val, "InstanceNode.goto", f"the route of {ptr}")
            # through the printed form
            st = x.attempt(lambda: plain(x, x.I.str_(rt[1])))
            if x.expect(st[0] == "ok" and isinstance(st[1], str), "printed-form", "InstanceRoute.__str__", f"printing the route of {ptr}: {st[1]}"):
                if not ("'" in st[1] and '"' in st[1] and both(want)):
                    back = ref_iid(st[1])
                    x.expect(back is not None and fits(back, want), "printed-form", "InstanceRoute.__str__", f"route of {ptr} is printed as {st[1]!r}".replace('"', "''"))
                    pr = x.attempt(lambda: x.call(x.sc.dm, "parse_instance_id", K(st[1])))
                    if x.expect(pr[0] == "ok", "printed-form-parses", "InstanceIdParser.parse", f"printed route of {ptr}: {pr[1]}", x.last.loc if pr[0] == "raise" else None):
                        x.expect(x.I.eq(pr[1], rt[1]), "printed-form-parses", "InstanceIdParser.parse", f"printed route of {ptr} parses to {show(items(x, pr[1]))}")
                        leads(x, root, pr[1], path, val, "InstanceNode.goto", f"the printed route of {ptr}")
            # through a resource identifier
            if not any(s[0] == "i" or (s[0] == "v" and s[1][0] == "") or (s[0] == "k" and [a[0] for a in s[1].values()] == [""]) for s in want):
                text = api(want)
                pr = x.attempt(lambda: x.call(x.sc.dm, "parse_resource_id", K(text)))
                if x.expect(pr[0] == "ok", "resource-id", "ResourceIdParser.parse", f"resource identifier {text}: {pr[1]}", x.last.loc if pr[0] == "raise" else None):
                    x.expect(fits(items(x, pr[1]), want), "resource-id", "ResourceIdParser.parse", f"{text} parses to {show(items(x, pr[1]))}")
                    leads(x, root, pr[1], path, val, "InstanceNode.goto", f"resource identifier {text}")
            # from every ancestor
            its = x.I.force(rt[1])
            its = (its.payload if isinstance(its, Obj) and its.payload is not None else its).items
            up = list(range(1, len(path)))
            for k in (up[-2:] if ck.tier == "quick" else up):
                rel = x.I.instantiate(x.p.cls("InstanceRoute"), [Lst("list", list(its[k:]))], {})
                leads(x, at(x, root, path[:k]), rel, path, val, "InstanceNode.goto", f"the route from {pointer(path[:k])} to {ptr}")
    ck.scenario(f"nodes/{name}", t, w, Config(steps=10 ** 8, rec=120, depth=300))


def both(want):
    """Does some value contain both kinds of quotes (XPath has no literal for it)?"""
    return any("'" in a and '"' in a for s in want if s[0] in "vk" for ts in ([s[1]] if s[0] == "v" else s[1].values()) for a in ts[:1])


def parse_one(x, f, text, want, rule, cons):
    r = x.attempt(lambda: x.call(x.sc.dm, f, K(text)))
    q = repr(text).replace('"', "''")
    if isinstance(want, list):
        if x.expect(r[0] == "ok", rule, cons, f"{q} is rejected: {r[1]}", x.last.loc if r[0] == "raise" else None):
            g = items(x, r[1])
            x.expect(g == want, rule, cons, f"{q} parses to {show(g)} instead of {show(want)}")
            return r[1]
        return None
    x.expect(r[0] == "raise", rule, cons, f"{q} is accepted as {show(items(x, r[1])) if r[0] == 'ok' else ''} although it is no valid identifier")
    if r[0] == "raise":
        syntax = {"UnexpectedInput", "EndOfInput"}
        ok = syntax if want in (None, "UnexpectedInput") else syntax | {"NonexistentSchemaNode"} if want == "either" else {want}
        x.expect(r[1] in ok, rule, cons, f"{q} raises {r[1]} instead of {'/'.join(sorted(ok))}", x.last.loc)
    return None


BASES = ["/m:c/y", "/m:tl[k='a']/r", "/m:tll[.='z']", "/m:tl[1]/k", '/m:c/two[b="1"][a=\'2\']/ic/q', "/m:c/n:nc/l[ k = 'b' ]", "/m:c/kl[ 12 ]/kk[3]", "/m:c/two[m:a='x'][n:q='y']", "/m:tll[\t. =\t\"it's\" ]", "/", "/m:tl[k='']", "/_x.y-z:A1.b_c-d/e", "/m:c/ll-instance-identifier[.=\"/m:a[b='c']\"]"]
INSERT = list("[]'\"=./: 1a") + ["\t", "$", "@", "[x='y']", "[1]", "[.='q']"]


def texts(base):
    yield base
    for i in range(len(base) + 1):
        for c in INSERT:
            yield base[:i] + c + base[i:]
        if i < len(base):
            yield base[:i] + base[i + 1:]
            yield base[:i]


def iid_texts(ck):
    w = wld(ck)
    for b in BASES + [""]:
        def t(x, b=b):
            for k, text in enumerate(sorted(set(texts(b)))):
                if odd(text) or repeated(text) or (ck.tier == "quick" and k % 2 and len(b) > 16):
                    continue
                parse_one(x, "parse_instance_id", text, ref_iid(text), "instance-id-grammar", "InstanceIdParser.parse")
        ck.scenario(f"instance-id/{b}", t, w, Config(steps=10 ** 8, rec=120, depth=300))


RIDS = ["/m:c/y", "/m:tl=a/r", "/m:tll=z", "/m:c/two=1,2/ic/q", "/m:c/n:nc/l=b", "/m:c/two=1,%2C%2f/in=%C3%A9/z=a%3Db", "m:c", "/m:c/two=2,1/act", "/m:op", "", "/", "/m:c/ll-string=a,b", "/m:c/two=,", "/m:c/two=0,", "/m:c/ad", "/n:c/c/c", "/n:c/c/o:back", "/m:c/n:y", "/m:c/kl", "/m:c/two", "/m:c/c2/q"]
RINSERT = list("/=,:%1a ") + ["%2", "m:", "n:", "=a", "/y", "/nix", "$", "?"]
ROTHER = ["/m:c/y/z", "/m:c/ll-string=a/b", "/m:c/ad/x", "/m:c/ad/m:p", "/m:c/y=1", "/m:c=1", "/m:c/kl=1", "/m:c/kl/x", "/m:tl/k", "/m:tl=a,b", "/m:c/two=1", "/m:c/two=1,2,3", "/m:nix", "/nix", "/m:c/nix", "/nix:c", "/m:c/n:c2", "/m:c//y", "//m:c", "/m:c/", "/m:c/ch", "/m:c/ch/c1", "/m:c/cs/c1", "/m:nt", "/m:c/y$", "/m:tl=a$", "/m:c/n:nl", "/m:c/nl", "/n:c/n:c", "/m:c/m:y", "/m:c/e", "/m:c/e/x", "/m:c/c3"]


def rid_texts(ck):
    w = wld(ck)

    def muts(b):
        yield b
        for i in range(len(b) + 1):
            for c in RINSERT:
                yield b[:i] + c + b[i:]
            if i < len(b):
                yield b[:i] + b[i + 1:]
                yield b[:i]
    for b in RIDS + [None]:
        def t(x, b=b):
            for k, text in enumerate(sorted(set(muts(b))) if b is not None else ROTHER):
                if ck.tier == "quick" and b and k % 3 and len(b) > 12:
                    continue
                if re.search("/m:c/c3|/m:nt", text):
                    continue
                want = ref_rid(text)
                if want is None:
                    continue
                parse_one(x, "parse_resource_id", text, want, "resource-id-grammar", "ResourceIdParser.parse")
        ck.scenario(f"resource-id/{b}", t, w, Config(steps=10 ** 8, rec=120, depth=300))


def selectors(d):
    """Routes for one step from a node of that description."""
    yield from ([("m", "nix", None)], [("m", "y", None)], [("m", "k", None)], [("m", "nix", "nix")], [("i", 0)], [("i", 1)], [("i", 99)], [("v", "a")], [("v", "nix")], [("k", {("k", None): "a"})], [("k", {("a", None): "1", ("b", None): "2"})], [("k", {("nix", None): "a"})])


EVAL = ["/m:c/y[1]", "/m:c/y[.='e']", "/m:c/y[.='text']", "/m:c[1]", "/m:c[.='x']", "/m:c[k='a']", "/m:c/two[a='1']", "/m:c/two[a='2'][b='1']/nix", "/m:nix", "/m:c/y/z", "/m:c/two/a", "/m:tl[q='a']", "/m:c/kl[2]", "/m:c/kl[4]", "/m:c/kl[x='1']", "/m:c/kl[x='2']", "/m:c/kl[1]/kk[y='1']", "/m:c/kl[1]/kk[2]/y",
        "/m:c/st[9]", "/m:c/st[.='nix']", "/m:c/two[b='1'][a='1']", "/m:c/two[b='x']", "/m:c/two[b='2'][a='1']/in[x='q']/z[.='t']", "/m:c/two[b='2'][a='1']/in[x='q']/z[.='s']", "/m:c/two[b='2'][a='1']/in[x='p']/z", "/m:c/two[b='2'][a='1']/in[x='p']/z[1]",
        "/m:c/two[n:nl='k']", "/m:c/two[n:nl='q']", "/m:c/two[nl='k']", "/m:c/y[k='a']", "/m:c/st[k='a']", "/m:tl[.='a']", "/m:tl[k='a']", "/m:tl[k='c']", "/m:tl[r='x']", "/m:tl[r='x'][k='b']", "/m:tl[r='y']", "/m:tl[r='y']/k", "/m:tl[r='z']", "/m:tl[3]", "/m:tl[4]", "/m:tl[2]/r", "/m:tl[2]/k", "/m:tl/r", "/m:top", "/n:top", "/o:top", "/m:tll[.='a']", "/m:tll[.='q']", "/m:tll[2]", "/m:tll[3]", "/m:tll/x",
        "/m:c/c1", "/m:c/c3", "/m:c/ch", "/m:c/nc", "/m:c/n:nc", "/m:c/n:nc/q", "/m:c/n:nc/l[k='b']", "/m:c/n:nc/l[k='c']", "/m:c/ad", "/m:c/e", "/m:c/e/x", "/m:c/su[.='1']", "/m:c/su[.='true']", "/m:c/su[.='0']", "/m:c/su[.='false']", "/m:c/sb[.='false']", "/m:c/sb[.='yes']", "/m:c/sb[.='1']", "/n:c/c/c", "/n:c/c/o:back", "/n:c/c/back", "/n:c/c/c/c", "/n:c/n:c", "/m:op", "/m:op/input", "/m:nt", "/m:c/two[b='2'][a='1']/act", "/m:c/ad/p", "/m:c/ad/m:p", "/m:c/ax/m:p", "/m:c/ad[1]", "/m:c/ad[.='x']", "/m:c/ad[k='x']"]


def evaluated(ck):
    """Routes to present, absent and impossible nodes."""
    w = wld(ck)

    def judge(x, root, doc, route, ref, what):
        want = evaluate(doc, ref)
        anyd = any("ad" in s[1:2] or "ax" in s[1:2] for s in ref[:-1])
        if want[0] == "ok" and not anyd:
            val = x.attr(at(x, root, want[1]), "value")
            leads(x, root, route, want[1], val, "InstanceNode.goto", what)
            return
        g = x.attempt(lambda: x.call(root, "goto", route))
        p = x.attempt(lambda: x.call(root, "peek", route))
        if want[0] == "absent" and not anyd:
            x.expect(g == ("raise", "NonexistentInstance"), "absent-nonexistent", "InstanceNode.goto", f"goto along {what}, which is absent: {g[1] if g[0] == 'raise' else 'instance ' + str(where(x, g[1]))}", x.last.loc if g[0] == "raise" else None)
            x.expect(p[0] == "ok" and plain(x, p[1]) is None, "absent-no-value", "InstanceNode.peek", f"peek along {what}, which is absent: {p[1] if p[0] == 'raise' else plain(x, p[1])!r}", x.last.loc if p[0] == "raise" else None)
        else:
            DOC = ("InstanceValueError", "NonexistentInstance", "NonexistentSchemaNode", "InvalidKeyValue", "NonDataNode")
            x.expect(g[0] == "raise", "invalid-route", "InstanceNode.goto", f"goto along {what}, which does not fit the schema, gives {where(x, g[1]) if g[0] == 'ok' else ''}")
            if g[0] == "raise":
                x.expect(g[1] in DOC, "invalid-route", "InstanceNode.goto", f"goto along {what} raises {g[1]}", x.last.loc)
            if p[0] == "ok":
                x.expect(plain(x, p[1]) is None, "invalid-route", "InstanceNode.peek", f"peek along {what}, which does not fit the schema, gives {plain(x, p[1])!r}")
            else:
                x.expect(p[1] in ("InvalidKeyValue", "NonexistentSchemaNode"), "invalid-route", "InstanceNode.peek", f"peek along {what} raises {p[1]}", x.last.loc)

    def t(x):
        r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(DOC2)))
        for text in EVAL:
            rt = x.attempt(lambda: x.call(x.sc.dm, "parse_instance_id", K(text)))
            if x.expect(rt[0] == "ok", "instance-id-grammar", "InstanceIdParser.parse", f"{text}: {rt[1]}"):
                judge(x, r[1], DOC2, rt[1], ref_iid(text), text)
    ck.scenario("evaluate/texts", t, w, Config(steps=10 ** 8, rec=120, depth=300))

    def item(x, s):
        p = x.p
        C = lambda n, *a: x.I.instantiate(p.cls(n), list(a), {})
        if s[0] == "m":
            return C("MemberName", K(s[1]), K(s[2]))
        if s[0] == "i":
            return C("EntryIndex", K(s[1]))
        if s[0] == "v":
            return C("EntryValue", K(s[1]))
        return C("EntryKeys", Dct([(Lst("tuple", [K(a), K(b)]), K(t)) for (a, b), t in s[1].items()]))

    def t2(x):
        # one more step from every node
        r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(DOC2)))
        for path, d, want, v in steps_of(DOC2):
            if d[0] == "any":
                continue
            n = at(x, r[1], path)
            base = x.attempt(lambda: x.call(n, "instance_route"))
            if base[0] != "ok":
                continue
            b = x.I.force(base[1])
            b = (b.payload if isinstance(b, Obj) and b.payload is not None else b).items
            first = [(s[0], s[1][0]) if s[0] == "v" else ("k", {k: a[0] for k, a in s[1].items()}) if s[0] == "k" else s for s in want]
            for more in selectors(d):
                try:
                    evaluate(DOC2, first + more)
                except AssertionError:
                    continue
                route = x.I.instantiate(x.p.cls("InstanceRoute"), [Lst("list", list(b) + [item(x, s) for s in more])], {})
                judge(x, r[1], DOC2, route, first + more, show(first + more))
    ck.scenario("evaluate/steps", t2, w, Config(steps=10 ** 8, rec=120, depth=300))

    def t3(x):
        # every text of every value of every type, and texts of other values and of none
        r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(DOC1)))
        for n, (_, vs, other, bad) in TYPES.items():
            for text in [a for _, ts in vs for a in ts] + other + bad:
                for ref in ([("m", "c", "m"), ("m", "ll-" + n, None), ("v", text)], [("m", "c", "m"), ("m", "lk-" + n, None), ("k", {("k", None): text}), ("m", "v", None)]):
                    route = x.I.instantiate(x.p.cls("InstanceRoute"), [Lst("list", [item(x, s) for s in ref])], {})
                    judge(x, r[1], DOC1, route, ref, show(ref))
    ck.scenario("evaluate/values", t3, w, Config(steps=10 ** 8, rec=120, depth=300))


def deref(ck):
    """Instance identifiers in data refer to the node of the route."""
    w = wld(ck)
    OK = ["/m:c/y", "/m:c/st[2]", "/m:tl[k='b']", "/m:c/two[a='1'][b='2']/in[x='q']", "/m:top", "/m:c/n:y"]
    NO = ["/m:c/two[a='9'][b='2']", "/m:nix", "/m:c/y[1]", "/m:c/y[.='e']", "/m:c[1]", "/m:c[.='x']", "/m:c/two[b='x']", "/m:tl[nix='a']", "/m:c/y/z", "/m:c/ad/p", "/m:c/st[k='a']", "/m:tl[.='a']", "/m:op", "/m:tl[3]"]

    def t(x):
        for text in OK + NO:
            doc = {**DOC2, "m:c": {**DOC2["m:c"], "ll-instance-identifier": [text]}}
            r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(doc)))
            n = at(x, r[1], ["m:c", "ll-instance-identifier", 0])
            d = x.attempt(lambda: x.call(n, "_deref"))
            if not x.expect(d[0] == "ok", "deref", "InstanceIdentifierType._deref", f"dereferencing {text}: {d[1]}", x.last.loc if d[0] == "raise" else None):
                continue
            got = [where(x, g) for g in x.I.iterate(d[1])]
            want = evaluate(doc, ref_iid(text))
            x.expect(got == ([pointer(want[1])] if want[0] == "ok" else []), "deref", "InstanceIdentifierType._deref", f"{text} refers to {got}")
    ck.scenario("deref", t, w, Config(steps=10 ** 8, rec=120, depth=300))


def split(ck):
    w = wld(ck)

    def t(x):
        targets = [(p, r) for p, d, r, v in steps_of(DOC2) if d[0] in ("cont", "list") and p and not any(isinstance(e, int) for e in p)]
        targets += [(["m:c", "two", 0, "in"], None), (["m:c", "two", 0, "ic"], None), (["m:c", "n:nc", "l"], None)]
        for tp, _ in targets:
            names = [e for e in tp if not isinstance(e, int)]
            sn = x.sc.schema
            ns = None
            for e in names:
                a, _, b = e.rpartition(":")
                ns = a or ns
                sn = x.call(sn, "get_data_child", K(b), K(ns))
            for path, d, want, v in steps_of(DOC2):
                first = [(s[0], s[1][0]) if s[0] == "v" else ("k", {k: a[0] for k, a in s[1].items()}) if s[0] == "k" else s for s in want]
                text = "".join(f"/{s[2] + ':' if s[2] else ''}{s[1]}" if s[0] == "m" else f"[{s[1] + 1}]" if s[0] == "i" else f"[.='{s[1]}']" if s[0] == "v" else "".join(f"[{k[0]}='{a}']" for k, a in s[1].items()) for s in first) or "/"
                rt = x.call(x.sc.dm, "parse_instance_id", K(text))
                r = x.attempt(lambda: x.call(sn, "split_instance_route", rt))
                what = f"splitting {text} at {'/'.join(names)}"
                if not x.expect(r[0] == "ok", "split-route", "InternalNode.split_instance_route", f"{what}: {r[1]}", x.last.loc if r[0] == "raise" else None):
                    continue
                pn = [e for e in path if not isinstance(e, int)]
                if pn[:len(names)] != names:
                    x.expect(plain(x, r[1]) is None, "split-route", "InternalNode.split_instance_route", f"{what} gives {r[1]!r}")
                    continue
                k, c = 0, 0
                while k < len(first) and c <= len(names):
                    if first[k][0] == "m":
                        c += 1
                        if c > len(names):
                            break
                    k += 1
                if x.expect(isinstance(x.I.force(r[1]), Lst), "split-route", "InternalNode.split_instance_route", f"{what} gives nothing"):
                    a, b = [items(x, i) for i in x.I.force(r[1]).items]
                    x.expect(a == first[:k] and b == first[k:], "split-route", "InternalNode.split_instance_route", f"{what} gives {show(a)} and {show(b)}")
    ck.scenario("split", t, w, Config(steps=10 ** 8, rec=120, depth=300))


def invalid(ck):
    """Entries whose values are not of their type have a route as well (errors print it)."""
    w = wld(ck)

    def t(x):
        # decodable values that are not of the type, and cooked values of a wrong kind
        CASES = [("bits", "x", True), ("bits", "p x", True), ("enumeration", "nix", True), ("int8", 7, True), ("boolean", "yes", False), ("binary", 5, False), ("bits", 5, False), ("empty", "x", False), ("identityref", "m:nix", True), ("decimal64", "99999999999999999999.0", True)]
        for n, v, raw in CASES:
            for kind in ("ll", "lk"):
                d = {"m:c": {f"ll-{n}": [TYPES[n][1][0][0]], f"lk-{n}": [{"k": TYPES[n][1][0][0]}]}}
                node = at(x, x.call(x.sc.dm, "from_raw", L(d)), ["m:c", f"{kind}-{n}", 0] + (["k"] if kind == "lk" else []))
                u = x.attempt(lambda: x.call(node, "update", L(v), raw=K(raw)))
                if u[0] != "ok":
                    continue
                r = x.attempt(lambda: x.call(u[1], "instance_route"))
                what = f"entry of {kind}-{n} with value {v!r}"
                if x.expect(r[0] == "ok", "route-exists", "ArrayEntry._instance_route_entry", f"route of the {what}: {r[1]}", x.last.loc if r[0] == "raise" else None):
                    s = x.attempt(lambda: x.I.str_(r[1]))
                    x.expect(s[0] == "ok", "printed-form", "InstanceRoute.__str__", f"printing the route of the {what}: {s[1]}")
    ck.scenario("invalid values", t, w)


def run(ck):
    invalid(ck)
    ck.floor = 26000
    for n in TYPES:
        nodes(ck, n, {"m:c": {k: v for k, v in DOC1["m:c"].items() if k.endswith("-" + n)}})
    nodes(ck, "document", DOC2)
    iid_texts(ck)
    rid_texts(ck)
    evaluated(ck)
    deref(ck)
    split(ck)
