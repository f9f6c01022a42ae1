"""Abstract evaluation of XPath expressions in a fixed abstract tree."""
from .common import *
from ..world import S, leaf as sleaf, module
from ..xpref import *


def xmodule():
    return module("m",
        S("identity", "b0"), S("identity", "i1", S("base", "b0")), S("identity", "i2", S("base", "i1")), S("identity", "j"),
        S("container", "c",
          sleaf("s1"), sleaf("s2"), sleaf("sx"), sleaf("se"), sleaf("st"), sleaf("none"),
          sleaf("i", "uint8"), sleaf("i0", "int32"), sleaf("big", "int64"),
          sleaf("d", S("type", "decimal64", S("fraction-digits", "2"))),
          sleaf("bt", "boolean"), sleaf("bf", "boolean"), sleaf("e", "empty"),
          sleaf("id", S("type", "identityref", S("base", "b0"))),
          sleaf("en", S("type", "enumeration", S("enum", "one", S("value", "1")), S("enum", "ten", S("value", "10")))),
          sleaf("bits", S("type", "bits", S("bit", "x"), S("bit", "y"), S("bit", "z"))),
          sleaf("un", S("type", "union", S("type", "uint8"), S("type", "string"))),
          S("leaf-list", "ll", S("type", "string")), S("leaf-list", "ln", S("type", "uint8")),
          S("leaf-list", "ls", S("type", "string")),
          S("container", "in", sleaf("z"))))


DATA = {"s1": "1", "s2": "2.50", "sx": "x", "se": "", "st": "true", "i": 1, "i0": 0, "big": -5, "d": ("dec", "2.5"), "bt": True, "bf": False,
        "e": ("empty",), "id": ("id", "i1"), "en": "ten", "bits": ("bits", "x", "z"), "un": 1,
        "ll": ["1", "x", "2.5"], "ln": [1, 3], "ls": ["5", "7"], "in": {"z": "q"}}
STR = {"s1": "1", "s2": "2.50", "sx": "x", "se": "", "st": "true", "i": "1", "i0": "0", "big": "-5", "d": "2.5", "bt": "true", "bf": "false",
       "e": "", "id": "m:i1", "en": "ten", "bits": "x z", "un": "1"}


def cook(x, v):
    from decimal import Decimal
    if isinstance(v, dict):
        return x.sc.objd({k: cook(x, e) for k, e in v.items()})
    if isinstance(v, list):
        return x.sc.arr(*[cook(x, e) for e in v])
    if isinstance(v, tuple):
        return {"dec": lambda: K(Decimal(v[1])), "empty": lambda: Lst("tuple", [NONE]), "id": lambda: Lst("tuple", [K(v[1]), K("m")]),
                "bits": lambda: Lst("tuple", [K(b) for b in v[1:]])}[v[0]]()
    return K(v)


def xworld(ck, name="xp"):
    return world(ck, name, lambda p: World(p, [xmodule()]))


def root(x, data=DATA):
    return x.sc.root(x.sc.objd({"m:c": cook(x, data)}))


def sctx(x):
    sd = x.attr(x.sc.dm, "schema_data")
    mid = Lst("tuple", [K("m"), K("2020-01-01")])
    return x.I.instantiate(x.p.cls("SchemaContext"), [sd, K("m"), mid], {})


def parse(x, text, ctx=None):
    p = x.I.instantiate(x.p.cls("XPathParser"), [K(text), ctx or sctx(x)], {})
    e = x.call(p, "parse")
    return e, x.I.truth(x.call(p, "at_end"))


def value(x, v):
    """Reference form of an abstract XPath value."""
    v = x.I.force(v)
    if isinstance(v, K) and isinstance(v.val, (bool, str, float)):
        return v.val
    if isinstance(v, K) and isinstance(v.val, int):
        return float(v.val)
    if isinstance(v, Obj) and v.payload is not None and getattr(v.cls, "name", "") == "NodeSet":
        return Nodes(strval(x, n) for n in v.payload.items)
    return ("?", repr(v))


def strval(x, n):
    r = x.I.force(x.I.str_(n))
    return r.val if isinstance(r, K) else repr(r)


def evaluate(x, text, node, ctx=None):
    """("ok", reference value) | ("raise", class)"""
    def go():
        e, end = parse(x, text, ctx)
        if not end:
            raise Unsupported(f"{text} not consumed")
        return x.call(e, "evaluate", node)
    r = x.attempt(go)
    return ("ok", value(x, r[1])) if r[0] == "ok" else r
