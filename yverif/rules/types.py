"""One module with every built-in type, used by several rules."""
from decimal import Decimal
from .common import *
from ..world import S, leaf as sleaf, module

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
TYPES = {t: S("type", t) for t in INTS}
TYPES.update({
    "decimal64": S("type", "decimal64", S("fraction-digits", "2")),
    "string": S("type", "string"), "binary": S("type", "binary"), "boolean": S("type", "boolean"), "empty": S("type", "empty"),
    "enumeration": S("type", "enumeration", S("enum", "one"), S("enum", "two")),
    "bits": S("type", "bits", S("bit", "one"), S("bit", "two"), S("bit", "three")),
    "identityref": S("type", "identityref", S("base", "base")),
    "instance-identifier": S("type", "instance-identifier"),
    "leafref": S("type", "leafref", S("path", "/m:int8")),
    "union": S("type", "union", S("type", "int8"), S("type", "boolean"), S("type", "bits", S("bit", "one")), S("type", "decimal64", S("fraction-digits", "1")))})


def tmodule():
    return module("m", S("identity", "base"), S("identity", "d1", S("base", "base")), S("identity", "d2", S("base", "d1")), S("identity", "other"),
                  *[S("leaf", n, t) for n, t in TYPES.items()],
                  *[S("leaf-list", "l-" + n, t) for n, t in TYPES.items()])


def tworld(ck):
    return world(ck, "types", lambda p: World(p, [tmodule()]))


def typ(x, name):
    return x.attr(x.sc.node(name), "type")


def tup(*xs):
    return Lst("tuple", [v if isinstance(v, V) else K(v) for v in xs])


def route(x, text):
    return x.sc.call(x.sc.new("InstanceIdParser", K(text)), "parse")


def cooked(x):
    """Constant cooked values of every kind, by kind name."""
    return {"int": K(1), "bigint": K(2**70), "negint": K(-1), "true": TRUE, "false": FALSE, "str": K("one"), "strx": K("zzz"), "empty-str": K(""), "bytes": K(b"ab"),
            "none": NONE, "float": K(1.5), "dec": K(Decimal("1.5")), "bigdec": K(Decimal(10)**30), "null-tuple": tup(None), "bits": tup("one"), "bits2": tup("two", "one"), "badbits": tup("zzz"),
            "no-bits": tup(), "ident": tup("d1", "m"), "base": tup("base", "m"), "badident": tup("nix", "m"), "route": route(x, "/m:int8"),
            "arr": x.sc.arr(K("one")), "obj": x.sc.objd({"one": K(1)})}


MEMBERS = {t: {"int"} for t in INTS}
for t in INTS:
    if t[0] == "i":
        MEMBERS[t] = {"int", "negint"}
MEMBERS.update({"decimal64": {"dec"}, "string": {"str", "strx", "empty-str"}, "binary": {"bytes"}, "boolean": {"true", "false"}, "empty": {"null-tuple"},
                "enumeration": {"str"}, "bits": {"bits", "bits2", "no-bits"}, "identityref": {"ident"}, "instance-identifier": {"route"}, "leafref": {"int", "negint"},
                "union": {"int", "negint", "true", "false", "bits", "no-bits", "dec"}})
