"""C12: the XML representation agrees with the JSON one."""
import base64
import re
from .common import *
from .types import TYPES, INTS, typ
from .c10 import spec, canon, alike, NO, MAXINT, IDS
from .c11 import L, documented
from .c28 import plain, attempt_plain
from ..extern import new_element
from ..world import S, leaf as sleaf, module

XT = {**TYPES, "u-is": S("type", "union", S("type", "identityref", S("base", "base")), S("type", "string")), "u-ie": S("type", "union", S("type", "empty"), S("type", "int64"), S("type", "boolean"), S("type", "enumeration", S("enum", "one"))),
      "u-bb": S("type", "union", S("type", "binary", S("length", "2")), S("type", "bits", S("bit", "one"), S("bit", "two"))), "lrid": S("type", "leafref", S("path", "/m:identityref")), "lrs": S("type", "leafref", S("path", "/m:string"))}


def mods():
    m = module("m", S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "d1")),
               *[S("leaf", n, t) for n, t in XT.items()], *[S("leaf-list", "l-" + n, t) for n, t in XT.items()],
               S("grouping", "g", sleaf("ga"), S("container", "gc", sleaf("gx"))),
               S("container", "c", sleaf("a"), sleaf("b", "uint16"), S("leaf-list", "ll", S("type", "string")), S("container", "e", sleaf("z"), S("leaf", "id", S("type", "identityref", S("base", "base")))),
                 S("container", "p", S("presence", "p"), sleaf("q")), S("uses", "g"),
                 S("choice", "ch", sleaf("c1"), S("case", "k2", S("container", "c2", sleaf("c2a")), S("leaf-list", "c2l", S("type", "uint8")))),
                 S("list", "l", S("key", "k j"), sleaf("k"), sleaf("j", "uint8"), S("leaf", "v", S("type", "empty")), S("leaf-list", "il", S("type", "int8")), S("container", "ic", sleaf("iz")), S("list", "n", S("key", "nk"), sleaf("nk"), sleaf("nv"))),
                 S("list", "kl", S("config", "false"), sleaf("u"))),
               S("rpc", "op", S("input", None, sleaf("i1"), S("leaf-list", "i2", S("type", "int8")), S("container", "i3", sleaf("i4"))), S("output", None, sleaf("o1"))),
               S("notification", "nt", sleaf("n1"), S("container", "n2", sleaf("n3")), S("leaf-list", "n4", S("type", "string"))))
    o = module("o", S("import", "m", S("prefix", "m")), S("identity", "oid", S("base", "m:base")),
               S("augment", "/m:c", sleaf("a"), sleaf("oa"), S("leaf-list", "ll", S("type", "int8")), S("container", "oc", sleaf("ol"), S("list", "l", S("key", "k"), sleaf("k"))), S("uses", "m:g"),
                 S("list", "l", S("key", "x"), sleaf("x"), S("leaf", "oid", S("type", "identityref", S("base", "m:base"))))),
               S("augment", "/m:c/m:l", sleaf("lo"), S("container", "loc", sleaf("z"))), S("augment", "/m:c/m:ch", S("case", "k3", sleaf("c3"))), S("augment", "/m:op/m:input", sleaf("oi")),
               S("container", "top", sleaf("t")))
    return [m, o]


def wld(ck):
    return world(ck, "c12", lambda p: World(p, mods()))


# ---- XML side of the oracle ----
class E:
    def __init__(self, ns, name, text=None, kids=(), nsmap=()):
        self.ns, self.name, self.text, self.kids, self.nsmap = ns, name, text, list(kids), dict(nsmap)

    def __repr__(self):
        t = (self.ns[4:] + ":" if self.ns else "") + self.name
        return f"<{t}>{self.text or ''}{''.join(map(repr, self.kids))}</{t}>"

    def build(self, I, bare=False, bound=()):
        nsmap = {**dict(bound), **self.nsmap}
        return new_element(I, self.name if bare or not self.ns else "{%s}%s" % (self.ns, self.name), self.text,
                           {**({"xmlns": self.ns} if self.ns else {}), **{"xmlns:" + p: u for p, u in nsmap.items()}}, [k.build(I, bare, nsmap) for k in self.kids])


URN = lambda mod: "urn:" + mod
NSMAP = {"m": "urn:m", "o": "urn:o"}


def text_of(v):
    return "true" if v is True else "false" if v is False else None if v == [None] or v == "" else str(v)


def elements(name, v, ns, nsmap=()):
    """XML elements equivalent to the JSON member."""
    if ":" in name:
        mod, name = name.split(":", 1)
        ns = URN(mod)
    if isinstance(v, dict):
        return [E(ns, name, None, [e for k, a in v.items() for e in elements(k, a, ns, nsmap)], nsmap)]
    if isinstance(v, list) and v != [None]:
        return [e for a in v for e in elements(name, a, ns, nsmap)]
    return [E(ns, name, text_of(v), (), nsmap)]


def doc(raw, nsmap=None):
    return E("urn:content", "content-data", None, [e for k, a in raw.items() for e in elements(k, a, None, NSMAP if nsmap is None else nsmap)])


def xspec(n, t):
    """Cooked value of the element text t (None: empty element), NO or None (open)."""
    s = t or ""
    if n in MAXINT:
        lo, hi = MAXINT[n]
        return int(s) if re.fullmatch(r"[+-]?[0-9]+", s) and lo <= int(s) <= hi else NO
    if n == "boolean":
        return {"true": True, "false": False}.get(s, NO)
    if n == "empty":
        return (None,) if s == "" else NO
    if n in ("leafref",):
        return xspec("int8", t)
    if n == "lrid":
        return xspec("identityref", t)
    if n == "lrs":
        return s
    if n == "identityref":
        p, c, l = s.partition(":")
        if not c:
            p, l = "m", s
        return (l, p) if (l, p) in (("d1", "m"), ("d2", "m"), ("oid", "o")) else NO
    if n == "dec1":
        return spec("dec1", s)
    if n in ("enum1", "bit1", "bitsab"):
        return spec(n, s)
    if n == "bin2":
        v = spec("binary", s)
        return v if v is not NO and len(v) == 2 else NO
    if n == "bits2":
        return tuple(sorted(s.split())) if set(s.split()) <= {"one", "two"} else NO
    M = {"union": ["int8", "boolean", "bit1", "dec1"], "u-is": ["identityref", "string"], "u-ie": ["empty", "int64", "boolean", "enum1"], "u-bb": ["bin2", "bits2"]}
    if n in M:
        for m in M[n]:
            v = xspec(m, t)
            if v is None or v is not NO:
                return v
        return NO
    return spec(n, s)


TEXTS = [None, "5", "-5", "+5", "0", "007", "200", "70000", str(2**40), str(2**63), str(-2**63), str(2**80), "1.5", "1.50", "-0.0", "0.10", "abc", "true", "false", "True", "1", "one", "two", "two one", "one zzz", "YWI=", "YWI", "\u00e9", "m:d1", "d1", "m:d2", "m:base", "o:oid", "oid", "nix:d1",
         "m:nix", "/m:int8", "/m:c/e", "null", "[null]", "0x10", "1e3", "NaN", "foo:bar", "1_0"]


def decode_leaf(ck):
    w = wld(ck)
    for n in XT:
        def t(x, n=n):
            for text in TEXTS:
                want = xspec(n, text)
                if n == "instance-identifier":
                    want = ("route", text) if text in ("/m:int8", "/m:c/e") else NO if text is None or text[0] != "/" else None
                if want is None or n == "binary" and text == "":
                    continue
                for shape in ("leaf", "leaf-list"):
                    name = n if shape == "leaf" else "l-" + n
                    d = E("urn:content", "data", None, [E("urn:m", name, text, (), NSMAP)])
                    r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", d.build(x.I)))
                    what = f"<{name}>{text or ''}</{name}>"
                    if r[0] == "raise":
                        x.expect(documented(x, x.last.exc), "documented-errors-only", "InternalNode.from_xml", f"decoding {what} raises {r[1]}", x.last.loc)
                        m = x.attempt(lambda: x.I.call(Ext("builtins.str"), [x.last.exc]))
                        x.expect(m[0] == "ok", "printable-error", r[1], f"the error for {what} cannot be printed: {m[1]}")
                        x.expect(want is NO, "xml-value-decoded", typ(x, n).cls.name + ".from_xml", f"decoding {what} raises {r[1]}")
                        continue
                    val = x.attr(r[1], "value")
                    val = entries(x.I, val)
                    got = val[0][1] if val and val[0][0] == "m:" + name else None
                    if shape == "leaf-list" and got is not None:
                        got = seq(x.I, got)
                        got = got[0] if len(got) == 1 else None
                    if got is None:
                        x.expect(False, "xml-value-decoded", "InternalNode.from_xml", f"decoding {what} gives {plain(x, x.attr(r[1], 'value'))}")
                        continue
                    acc = x.I.truth(x.call(typ(x, n), "__contains__", got))
                    if want is NO:
                        x.expect(not acc, "xml-value-rejected", typ(x, n).cls.name + ".from_xml", f"{what} is decoded as {plain(x, got)!r}, which the type accepts")
                        continue
                    x.expect(acc and alike(x, got, want), "xml-value-decoded", typ(x, n).cls.name + ".from_xml", f"{what} is decoded as {show(term_of(got))} instead of {want!r}")
                    if not acc:
                        continue
                    # back to XML
                    o = x.attempt(lambda: x.call(r[1], "to_xml"))
                    if x.expect(o[0] == "ok", "xml-output", "InstanceNode.to_xml", f"encoding {n} value {want!r} raises {o[1]}"):
                        e = out(x, o[1])
                        kid = e["kids"][0] if len(e["kids"]) == 1 else None
                        ct = canon("string" if n == "u-is" and isinstance(want, str) else "identityref" if n in ("u-is", "lrid") else "lrs" if n == "lrs" else "binary" if isinstance(want, bytes) else "bits" if n == "u-bb" else n, want)[0] if want != ("oid", "o") else "o:oid"
                        ok = kid is not None and (kid["name"], kid["ns"], kid["text"] or "") == (name, "urn:m", ct)
                        x.expect(ok, "xml-output", typ(x, n).cls.name + ".to_xml", f"{n} value {want!r} is encoded as {kid}")
                        idn = want if isinstance(want, tuple) and len(want) == 2 and want in (("d1", "m"), ("d2", "m"), ("oid", "o")) else None
                        if ok and idn:
                            x.expect(kid["scope"].get("xmlns:" + idn[1]) == URN(idn[1]), "identity-prefix-bound", "InstanceNode.to_xml", f"the prefix of {ct} in {n} is bound to {kid['scope'].get('xmlns:' + idn[1])}")
        ck.scenario(f"decode/{n}", t, w, Config(steps=10**7, rec=120, depth=400))


def out(x, e, ns=None, scope=None):
    """Python form of an abstract element."""
    e = x.I.force(e)
    at = {k: plain(x, v) for k, v in entries(x.I, e.fields["attrib"])}
    scope = {**(scope or {}), **{k: v for k, v in at.items() if k.startswith("xmlns")}}
    tag = plain(x, e.fields["tag"])
    ns = at.get("xmlns", ns)
    if tag[:1] == "{":
        ns, tag = tag[1:].split("}")
    return {"name": tag, "ns": ns, "text": plain(x, e.fields["text"]), "attrs": {k: v for k, v in at.items() if not k.startswith("xmlns")}, "scope": scope, "kids": [out(x, c, ns, scope) for c in e.payload.items]}


def same_doc(o, e):
    """Output element against the expected E."""
    return o["name"] == e.name and (e.ns is None or o["ns"] == e.ns) and (o["text"] or None) == e.text and not o["attrs"] and len(o["kids"]) == len(e.kids) and all(same_doc(a, b) for a, b in zip(o["kids"], e.kids))


def brief(o):
    t = f"{o['ns']}|{o['name']}"
    return f"<{t}>{o['text'] or ''}{''.join(map(brief, o['kids']))}</{t}>" if isinstance(o, dict) else repr(o)


TREES = [{"m:c": {}}, {"m:c": {"a": "x"}}, {"m:c": {"a": "x", "b": 5, "ll": ["1", "2", "3"], "e": {"z": "q"}}}, {"m:c": {"e": {}, "p": {}}}, {"m:c": {"p": {"q": ""}}}, {"m:string": "s", "m:c": {"a": "x"}, "m:int8": 5, "o:top": {"t": "x"}},
         {"m:c": {"o:a": "y", "a": "x"}}, {"m:c": {"a": "x", "o:a": "y", "ll": ["1", "2"], "o:ll": [3, 4], "o:oa": "z"}}, {"m:c": {"ga": "1", "gc": {"gx": "2"}, "o:ga": "3", "o:gc": {"gx": "4"}}}, {"m:c": {"c1": "x"}}, {"m:c": {"c2": {"c2a": "x"}, "c2l": [1, 2]}}, {"m:c": {"o:c3": "x"}},
         {"m:c": {"l": [{"k": "1", "j": 1}]}}, {"m:c": {"l": [{"k": "1", "j": 1, "v": [None], "il": [1, -2, 3], "ic": {"iz": "y"}}, {"k": "2", "j": 2, "n": [{"nk": "a"}, {"nk": "b", "nv": "c"}]}, {"k": "2", "j": 3, "o:lo": "x", "o:loc": {"z": "y"}}]}},
         {"m:c": {"o:l": [{"x": "1"}, {"x": "2", "oid": "o:oid"}, {"x": "3", "oid": "m:d1"}], "l": [{"k": "1", "j": 1}]}}, {"m:c": {"o:oc": {"ol": "x", "l": [{"k": "1"}, {"k": "2"}]}, "a": "z"}}, {"m:c": {"kl": [{"u": "1"}, {"u": "1"}, {}]}}, {"m:c": {"e": {"z": "1", "id": "o:oid"}}}, {"m:c": {"e": {"id": "m:d2"}}},
         {"m:l-int8": [1, 2, 3], "m:l-string": ["", "x"], "m:l-boolean": [True, False]}, {"m:int64": str(2**40), "m:uint64": "5", "m:decimal64": "1.5", "m:boolean": False, "m:empty": [None], "m:bits": "one three", "m:binary": "YWI=", "m:union": True, "m:enumeration": "two"}, {}]
SUB = [("m:op", {"m:input": {"i1": "x", "i2": [1, 2], "i3": {"i4": "y"}, "o:oi": "z"}}), ("m:op", {"m:output": {"o1": "x"}}), ("m:op", {"m:input": {}}), ("m:nt", {"m:n1": "x", "m:n2": {"n3": "y"}, "m:n4": ["1", "2"]}), ("m:nt", {"m:n4": ["1"]}), ("m:nt", {})]


def cmp_inst(x, a, b):
    """Same instance content: members in any order, entries in order."""
    return plain(x, x.attr(a, "value")) == plain(x, x.attr(b, "value"))


def trees(ck):
    w = wld(ck)

    def shuffle(e, k):
        """Interleaves the children without changing the order within one name."""
        groups = {}
        for c in e.kids:
            groups.setdefault((c.ns, c.name), []).append(shuffle(c, k))
        gs = list(groups.values())
        if k == "reverse":
            kids = [c for g in reversed(gs) for c in g]
        else:
            kids = [g[i] for i in range(max(map(len, gs), default=0)) for g in gs if i < len(g)]
        return E(e.ns, e.name, e.text, kids, e.nsmap)

    def one(raw):
        def t(x):
            j = x.call(x.sc.dm, "from_raw", L(raw))
            d = doc(raw)
            if all(v != {} or True for v in raw.values()):
                for how, el in (("", d.build(x.I)), (" in reverse order", shuffle(d, "reverse").build(x.I)), (" interleaved", shuffle(d, "mix").build(x.I)),
                                *([(" without inner namespaces", E("urn:content", "d", None, []).build(x.I))] if False else [])):
                    r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", el))
                    x.expect(r[0] == "ok" and cmp_inst(x, r[1], j), "xml-equals-json", "InternalNode.from_xml", f"XML{how} of {raw} is decoded as {plain(x, x.attr(r[1], 'value')) if r[0] == 'ok' else r[1]}", x.last.loc if r[0] == "raise" else None)
                # inner elements without a namespace belong to their parent's
                if "o:" not in str(raw):
                    el = E("urn:content", "content-data")
                    top = el.build(x.I)
                    for e in d.kids:
                        c = e.build(x.I, True)
                        c.fields["tag"] = K("{%s}%s" % (e.ns, e.name))
                        top.payload.items.append(c)
                    r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", top))
                    x.expect(r[0] == "ok" and cmp_inst(x, r[1], j), "xml-equals-json", "InternalNode.from_xml", f"XML of {raw} without inner namespaces is decoded as {plain(x, x.attr(r[1], 'value')) if r[0] == 'ok' else r[1]}", x.last.loc if r[0] == "raise" else None)
            o = x.attempt(lambda: x.call(j, "to_xml"))
            if x.expect(o[0] == "ok", "xml-output", "InstanceNode.to_xml", f"encoding {raw} raises {o[1]}", x.last.loc if o[0] == "raise" else None):
                want = doc(raw)
                want.ns = None
                got = out(x, o[1])
                x.expect(same_doc(got, want), "xml-output", "InstanceNode.to_xml", f"{raw} is encoded as {brief(got)}, expected {want}")
                # every instance below alone
                for k, v in (raw.get("m:c") or {}).items():
                    i = x.sc.member(j, "m:c", k)
                    if isinstance(v, list) and v != [None]:
                        i = x.sc.member(i, K(0))
                        v = v[0]
                    if v == {}:
                        continue
                    o = x.attempt(lambda: x.call(i, "to_xml"))
                    if x.expect(o[0] == "ok", "xml-output", "InstanceNode.to_xml", f"encoding member {k} of {raw} raises {o[1]}", x.last.loc if o[0] == "raise" else None):
                        want = elements(k, v, "urn:m")[0]
                        got = out(x, o[1])
                        x.expect(same_doc(got, want), "xml-output", "InstanceNode.to_xml", f"member {k} of {raw} alone is encoded as {brief(got)}, expected {want}")
        return t
    for i, raw in enumerate(TREES):
        ck.scenario(f"trees/{i}", one(raw), w, Config(steps=10**7, rec=120, depth=400))

    def ts(x):
        for sub, raw in SUB:
            j = x.call(x.sc.dm, "from_raw", L(raw), K(sub))
            rpc = sub == "m:op"
            d = doc(raw).kids[0] if rpc else E("urn:m", "nt", None, doc(raw).kids)
            r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", d.build(x.I), K(sub)))
            x.expect(r[0] == "ok" and cmp_inst(x, r[1], j), "xml-equals-json", "DataModel.from_xml", f"XML {d} of {sub} is decoded as {plain(x, x.attr(r[1], 'value')) if r[0] == 'ok' else r[1]}, JSON as {plain(x, x.attr(j, 'value'))}", x.last.loc if r[0] == "raise" else None)
            o = x.attempt(lambda: x.call(j, "to_xml"))
            if x.expect(o[0] == "ok", "xml-output", "RootNode.to_xml", f"encoding {raw} of {sub} raises {o[1]}", x.last.loc if o[0] == "raise" else None):
                got = out(x, o[1])
                x.expect(same_doc(got, d), "xml-output", "RootNode.to_xml", f"{raw} of {sub} is encoded as {brief(got)}, expected {d}")
        for sub, exc in (("nix", "InvalidArgument"), ("m:nix", "NonexistentSchemaNode"), ("m:c", "BadSchemaNodeType"), (":nt", "InvalidArgument")):
            x.raises(lambda: x.call(x.sc.dm, "from_xml", E("urn:m", "x").build(x.I), K(sub)), exc, "bad-subschema", "DataModel.from_xml", f"subschema {sub}")
    ck.scenario("subschema", ts, w, Config(steps=10**7, rec=120, depth=400))


def rejects(ck):
    w = wld(ck)
    m = lambda *kids, n="c": E("urn:content", "data", None, [E("urn:m", n, None, kids)])
    a = lambda n, t="x", ns="urn:m", kids=(): E(ns, n, t, kids)
    BAD = [("unknown member", m(a("nix"))), ("unknown top-level member", m(n="nix")), ("unknown namespace", m(a("a", ns="urn:nix"))), ("unknown top-level namespace", E("urn:content", "d", None, [E("urn:nix", "c")])), ("top-level member without namespace", E("urn:content", "d", None, [E(None, "c")])),
           ("member of another module without its namespace", m(a("oa"))), ("member in a wrong namespace", m(a("b", "1", "urn:o"))), ("member of a case in a wrong namespace", m(a("c1", "1", "urn:o"))), ("unknown member of a list entry", m(a("l", None, kids=[a("nix")]))),
           ("unknown member of the second list entry", m(a("l", None, kids=[a("k"), a("j", "1")]), a("l", None, kids=[a("k"), a("j", "2"), a("nix")]))), ("wrong value in a list entry", m(a("l", None, kids=[a("k"), a("j", "x")]))), ("wrong value in a leaf-list", m(a("c2l", "1"), a("c2l", "x"))),
           ("choice as an element", m(a("ch"))), ("case as an element", m(a("k2"))), ("rpc inside a container", m(a("op"))), ("text in a container", E("urn:content", "d", None, [E("urn:m", "c", "text")])), ("element inside a leaf", m(a("a", None, kids=[a("b", "1")]))), ("element and text inside a leaf", m(a("a", "x", kids=[a("b", "1")]))), ("text in a list entry", m(a("l", "x", kids=[a("k"), a("j", "2")]))),
           ("element inside an empty leaf", m(a("l", None, kids=[a("k"), a("j", "2"), a("v", None, kids=[a("k")])])))]

    def t(x):
        for what, d in BAD:
            r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", d.build(x.I)))
            if r[0] == "ok":
                v = x.attempt(lambda: x.call(r[1], "validate", x.I.getattr_(x.p.cls("ValidationScope"), "all"), x.I.getattr_(x.p.cls("ContentType"), "all")))
                x.expect(v[0] == "raise", "xml-defect-rejected", "InternalNode.from_xml", f"{what} is accepted: {d} is decoded as {plain(x, x.attr(r[1], 'value'))}")
            else:
                x.expect(documented(x, x.last.exc), "documented-errors-only", "InternalNode.from_xml", f"{what} raises {r[1]}: {d}", x.last.loc)
                mm = x.attempt(lambda: x.I.call(Ext("builtins.str"), [x.last.exc])) if documented(x, x.last.exc) else ("ok", 0)
                x.expect(mm[0] == "ok", "printable-error", r[1], f"the error for {what} cannot be printed: {mm[1]}")
    ck.scenario("rejects", t, w, Config(steps=10**7, rec=120, depth=400))

    def ti(x):
        # the binding of a prefix decides, whatever the prefix is called
        for text, nsmap, want in (("p:d1", {"p": "urn:m"}, ("d1", "m")), ("p:oid", {"p": "urn:o"}, ("oid", "o")), ("o:d1", {"o": "urn:m", "m": "urn:o"}, ("d1", "m")), ("m:oid", {"m": "urn:o"}, ("oid", "o")), ("d2", {}, ("d2", "m")), ("m:d2", {"m": "urn:m"}, ("d2", "m"))):
            for n in ("identityref", "u-is", "lrid"):
                d = E("urn:content", "data", None, [E("urn:m", n, text, (), nsmap)])
                r = x.attempt(lambda: plain_box(x, x.call(x.sc.dm, "from_xml", d.build(x.I))))
                x.expect(r[0] == "ok" and r[1].val.get("m:" + n) == want, "identity-prefix-resolved", "IdentityrefType.from_xml", f"<{n}>{text}</{n}> with {nsmap} is decoded as {r[1].val if r[0] == 'ok' else r[1]}")
        for text, nsmap in (("p:d1", {"p": "urn:nix"}), ("p:d1", {}), ("p:d1", {"p": "urn:o"}), ("m:d1", {"m": "urn:nix"}), (":d1", {}), ("p:", {"p": "urn:m"})):
            d = E("urn:content", "data", None, [E("urn:m", "identityref", text, (), nsmap)])
            r = x.attempt(lambda: x.call(x.call(x.sc.dm, "from_xml", d.build(x.I)), "validate"))
            x.expect(r[0] == "raise" and documented(x, x.last.exc), "identity-prefix-resolved", "IdentityrefType.from_xml", f"<identityref>{text}</identityref> with {nsmap}: {r[1] if r[0] == 'raise' else 'accepted'}")
            d = E("urn:content", "data", None, [E("urn:m", "u-is", text, (), nsmap)])
            r = x.attempt(lambda: plain_box(x, x.call(x.sc.dm, "from_xml", d.build(x.I))))
            x.expect(r[0] == "ok" and r[1].val.get("m:u-is") == text, "identity-prefix-resolved", "UnionType.from_xml", f"<u-is>{text}</u-is> with {nsmap} is decoded as {r[1].val if r[0] == 'ok' else r[1]} instead of a string")
    ck.scenario("prefixes", ti, w, Config(steps=10**7, rec=120, depth=400))


def plain_box(x, inst):
    return K(plain(x, x.attr(inst, "value")))


def filters(ck):
    """Output filters hide the same nodes in both representations."""
    w = wld(ck)
    raw = {"m:string": "s", "m:c": {"a": "x", "b": 5, "ll": ["1", "2", "3"], "e": {"z": "q", "id": "m:d1"}, "l": [{"k": "1", "j": 1, "il": [1, 2]}, {"k": "2", "j": 2, "n": [{"nk": "a"}, {"nk": "b"}]}]}}

    def prune(v, path, hide):
        if isinstance(v, dict):
            return {k: prune(a, path + (k,), hide) for k, a in v.items() if path + (k,) not in hide}
        if isinstance(v, list):
            return [prune(a, path + (i,), hide) for i, a in enumerate(v) if path + (i,) not in hide]
        return v

    HIDE = [("m:string",), ("m:c",), ("m:c", "a"), ("m:c", "ll"), ("m:c", "ll", 0), ("m:c", "ll", 2), ("m:c", "e"), ("m:c", "e", "z"), ("m:c", "l"), ("m:c", "l", 0), ("m:c", "l", 1, "n"), ("m:c", "l", 1, "n", 0), ("m:c", "l", 0, "il", 1), ("m:c", "l", 0, "j")]

    def t(x):
        root = x.call(x.sc.dm, "from_raw", L(raw))
        for h in HIDE:
            for when in ("begin", "end"):
                f = x.sc.new("OutputFilter")

                def ask(kind):
                    def fn(I, a, kw):
                        return kbool(plain(x, x.attr(I.force(a[1]), "path")) != h)
                    return Native(fn, kind)
                for kind in ("member", "element"):
                    f.fields[f"{when}_{kind}"] = ask(f"{when}_{kind}")
                want = prune(raw, (), {h})
                r = attempt_plain(x, lambda: plain(x, x.call(root, "raw_value", f)))
                x.expect(r == ("ok", want), "filtered-output", "InstanceNode.raw_value", f"hiding {h} by {when}_* gives {r[1]}")
                o = x.attempt(lambda: x.call(root, "to_xml", f))
                if x.expect(o[0] == "ok", "filtered-output", "InstanceNode.to_xml", f"hiding {h} raises {o[1]}", x.last.loc if o[0] == "raise" else None):
                    d = doc(want)
                    d.ns = None
                    got = out(x, o[1])
                    x.expect(same_doc(got, d), "filtered-output", "InstanceNode.to_xml", f"hiding {h} by {when}_* gives {brief(got)}")
    ck.scenario("filters", t, w, Config(steps=10**7, rec=120, depth=400))


def parser(ck):
    """Elements carry every namespace binding in scope, the innermost winning."""
    def t(x):
        I = x.I
        for k, (evs, want) in enumerate((
                ([("ns", "", "u1"), ("s", 0), ("ns", "p", "u2"), ("s", 1), ("e", 1), ("ee", "p"), ("e", 0), ("ee", "")], {0: {"xmlns": "u1"}, 1: {"xmlns": "u1", "xmlns:p": "u2"}}),
                ([("ns", "p", "u1"), ("s", 0), ("ns", "p", "u2"), ("s", 1), ("e", 1), ("ee", "p"), ("s", 2), ("e", 2), ("e", 0), ("ee", "p")], {0: {"xmlns:p": "u1"}, 1: {"xmlns:p": "u2"}, 2: {"xmlns:p": "u1"}}),
                ([("ns", "a", "u1"), ("ns", "b", "u2"), ("s", 0), ("s", 1), ("ns", "", "u3"), ("s", 2), ("e", 2), ("ee", ""), ("e", 1), ("e", 0), ("ee", "b"), ("ee", "a")], {0: {"xmlns:a": "u1", "xmlns:b": "u2"}, 1: {"xmlns:a": "u1", "xmlns:b": "u2"}, 2: {"xmlns:a": "u1", "xmlns:b": "u2", "xmlns": "u3"}}))):
            els = {i: new_element(I, f"e{i}", None, {"other": "1"}) for i in want}
            lst = []
            for e in evs:
                lst.append(Lst("tuple", {"ns": lambda: [K("start-ns"), Lst("tuple", [K(e[1]), K(e[2])])], "s": lambda: [K("start"), els[e[1]]], "e": lambda: [K("end"), els[e[1]]], "ee": lambda: [K("end-ns"), NONE]}[e[0]]()))
            for cut in (len(lst), 3):
                for el in els.values():
                    el.fields["attrib"].entries[:] = [[K("other"), K("1")]]
                o = x.sc.new("XMLParser")
                chunks = [lst[:cut], lst[cut:]]
                for ch in chunks:
                    o.fields["read_events"] = Native(lambda I, a, kw, ch=ch: Lst("list", list(ch)), "read_events")
                    x.call(o, "parse")
                x.expect(x.attr(o, "root") is els[0], "xml-parser-root", "XMLParser.parse", "the root is not the first element")
                for i, w in want.items():
                    got = plain(x, els[i].fields["attrib"])
                    x.expect(got == {"other": "1", **w}, "xml-parser-namespaces", "XMLParser.parse", f"bindings of element {i} in sequence {k}: {got}, expected {w}")
    ck.scenario("parser", t)


def run(ck):
    ck.floor = 800
    decode_leaf(ck)
    trees(ck)
    rejects(ck)
    filters(ck)
    parser(ck)
