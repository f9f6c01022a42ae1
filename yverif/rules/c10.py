"""C10: JSON encoding of every type follows RFC 7951 (decoding side and encoding side)."""
import base64
from decimal import Decimal, InvalidOperation
from .common import *
from .types import *

EXTRA = {
    "u-is": S("type", "union", S("type", "int64"), S("type", "string", S("length", "1..2"))),
    "u-si": S("type", "union", S("type", "string", S("pattern", "[0-9.]+")), S("type", "decimal64", S("fraction-digits", "1")), S("type", "boolean")),
    "u-be": S("type", "union", S("type", "bits", S("bit", "a"), S("bit", "b")), S("type", "string"), S("type", "int8")),
    "u-ee": S("type", "union", S("type", "enumeration", S("enum", "one")), S("type", "empty"), S("type", "identityref", S("base", "base")), S("type", "uint16")),
    "u-u": S("type", "union", S("type", "union", S("type", "boolean"), S("type", "uint8")), S("type", "binary")),
    "rng": S("type", "int32", S("range", "1..10")), "d18": S("type", "decimal64", S("fraction-digits", "18")), "d7": S("type", "decimal64", S("fraction-digits", "7")),
    "td": S("type", "t1"), "lr64": S("type", "leafref", S("path", "/m:uint64")), "lrs": S("type", "leafref", S("path", "/m:string")),
}

RAWS = ["0.0000001", "-0.0000500", "0.000000000000000001", "0.0000000010", "1_0", "1_0.5", " 5", "5 ", "\u0665", "1e2", "1E-2", "0x10", "010", ".5", 5, -5, 0, 200, 70000, 2**40, 2**80, -2**70, 1.5, 5.0, True, False, None, "", "5", "-5", "+5", "0", "1.50", "1.5", "-0.0", "0.10", "123456789012345678.5", "5.", "abc", "true", "false", "one", "two", "two one", "three two one", "three one", "one two", "one one2", "a",
        "b a", "YWI=", "YWI", "Y W I=", "\u00e9", "NaN", "Infinity", "m:d1", "d1", "m:d2", "m:base", "m:other", "n:d1", "m:nix", "/m:int8", "/m:string", "m:int8", "/", "/m:x[", "x" * 20, [None], [], [1], [None, None], ["one"], {}, {"a": 1}]
MAXINT = {t: ((-2**(int(t[3:]) - 1), 2**(int(t[3:]) - 1) - 1) if t[0] == "i" else (0, 2**int(t[4:]) - 1)) for t in INTS}
IDS = {"d1", "d2"}
NO = object()


def dec(raw, fd, lo=None):
    if not isinstance(raw, str):
        return NO
    import re
    if not re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", raw):
        return NO if raw != "5." else None
    v = Decimal(raw)
    q = v.quantize(Decimal(1).scaleb(-fd)) if abs(v) * 10**fd < 2**63 else None
    if q is None:
        return NO
    return q if q == v else None        # None: more digits than the type has, not decided here


def spec(n, raw):
    """Cooked value (python), NO, or None when left open."""
    ident = lambda: (raw.partition(":")[::-2] if ":" in raw else (raw, "m")) if isinstance(raw, str) else None
    if n in MAXINT:
        lo, hi = MAXINT[n]
        if n in ("int64", "uint64"):
            if not isinstance(raw, str):
                return NO
            import re
            if not re.fullmatch(r"[+-]?[0-9]+", raw):
                return NO
            v = int(raw)
        else:
            if type(raw) is not int:
                return NO
            v = raw
        return v if lo <= v <= hi else NO
    s = isinstance(raw, str)
    if n == "decimal64":
        return dec(raw, 2)
    if n in ("d18", "d7"):
        return dec(raw, int(n[1:]))
    if n == "string" or n == "lrs":
        return raw if s else NO
    if n == "boolean":
        return raw if isinstance(raw, bool) else NO
    if n == "empty":
        return (None,) if raw == [None] else NO
    if n == "binary":
        if not s or not raw.isascii():
            return NO
        try:
            return base64.b64decode(raw, validate=True)
        except ValueError:
            return NO
    if n == "enumeration":
        return raw if s and raw in ("one", "two") else NO
    if n == "bits":
        return tuple(sorted(raw.split(), key=["one", "two", "three"].index)) if s and set(raw.split()) <= {"one", "two", "three"} else NO
    if n == "identityref":
        i = ident()
        return i if i and i[1] == "m" and i[0] in IDS else NO
    if n == "instance-identifier":
        return ("route", raw) if raw in ("/m:int8", "/m:string", "/") else NO
    if n == "leafref":
        return spec("int8", raw)
    if n == "lr64":
        return spec("uint64", raw)
    if n in ("rng", "td"):
        v = spec("int32", raw)
        return v if v is not NO and 1 <= v <= 10 else NO
    M = {"union": ["int8", "boolean", "bit1", "dec1"], "u-is": ["int64", "len12"], "u-si": ["digits", "dec1", "boolean"], "u-be": ["bitsab", "string", "int8"],
         "u-ee": ["enum1", "empty", "identityref", "uint16"], "u-u": ["boolean", "uint8", "binary"]}
    if n in M:
        for m in M[n]:
            v = spec(m, raw)
            if v is None:
                return None
            if v is not NO:
                return v
        return NO
    if n == "bit1":
        return tuple(raw.split()) if s and set(raw.split()) <= {"one"} else NO
    if n == "bitsab":
        return tuple(sorted(raw.split())) if s and set(raw.split()) <= {"a", "b"} else NO
    if n == "dec1":
        return dec(raw, 1)
    if n == "len12":
        return raw if s and 1 <= len(raw) <= 2 else NO
    if n == "digits":
        return raw if s and raw and set(raw) <= set("0123456789.") else NO
    if n == "enum1":
        return raw if raw == "one" else NO
    raise KeyError(n)


def canon(n, v):
    """(canonical text, JSON value) of a cooked value."""
    if n in ("leafref", "lr64", "lrs", "rng", "td"):
        n = {"leafref": "int8", "lr64": "uint64", "lrs": "string", "rng": "int32", "td": "int32"}[n]
    if isinstance(v, bool):
        return ("true" if v else "false"), v
    if isinstance(v, int):
        t = str(v)
        return t, (t if n in ("int64", "uint64") or n == "u-is" else v)
    if isinstance(v, Decimal):
        if v == 0:
            return "0.0", "0.0"
        t = format(v, "f").rstrip("0")
        t = t + "0" if t.endswith(".") else t
        return t, t
    if isinstance(v, bytes):
        t = base64.b64encode(v).decode()
        return t, t
    if v == (None,):
        return "", [None]
    if isinstance(v, tuple) and v and v[0] == "route":
        return v[1], v[1]
    if isinstance(v, tuple) and len(v) == 2 and v[1] == "m":
        return "m:" + v[0], "m:" + v[0]
    if isinstance(v, tuple):
        order = ["a", "b"] if n == "u-be" else ["one", "two", "three"]
        t = " ".join(sorted(v, key=order.index))
        return t, t
    return v, v


def lift(v):
    if isinstance(v, list):
        return Lst("list", [lift(a) for a in v])
    if isinstance(v, dict):
        return Dct([(K(k), lift(a)) for k, a in v.items()])
    if isinstance(v, tuple):
        return Lst("tuple", [lift(a) for a in v])
    return K(v)


def alike(x, got, want):
    """Same value and same kind."""
    got = x.I.force(got)
    if isinstance(want, tuple) and want[:1] == ("route",):
        return isinstance(got, Obj) and isinstance(got.cls, Cls) and got.cls.name == "InstanceRoute" and x.I.force(x.I.call(Ext("builtins.str"), [got])).val == want[1]
    if isinstance(want, Decimal):
        return isinstance(got, K) and isinstance(got.val, Decimal) and got.val == want
    if isinstance(want, (tuple, list)):
        return isinstance(got, Lst) and got.kind == ("tuple" if isinstance(want, tuple) else "list") and len(got.items) == len(want) and all(alike(x, g, w) for g, w in zip(got.items, want))
    return isinstance(got, K) and type(got.val) is type(want) and got.val == want


def pw(ck):
    def mk(p):
        m = tmodule()
        extra = tuple([S("typedef", "t1", S("type", "t0", S("range", "1..10"))), S("typedef", "t0", S("type", "int32"))] + [S("leaf", n, t) for n, t in EXTRA.items()])
        return World(p, [(m[0], m[1], m[2] + extra, m[3])])
    return world(ck, "c10", mk)


ALLT = {**TYPES, **EXTRA}


def decode(ck):
    w = pw(ck)
    for n in ALLT:
        def t(x, n=n):
            ty = typ(x, n)
            cls = ty.cls.name
            for raw in RAWS:
                want = spec(n, raw)
                if want is None:
                    continue
                r = x.attempt(lambda: x.call(ty, "from_raw", lift(raw)))
                if not x.expect(r[0] == "ok", "decoding-never-fails", cls + ".from_raw", f"{n}: decoding {raw!r} raises {r[1]}"):
                    continue
                got = r[1]
                isnone = isinstance(got, K) and got.val is None
                acc = not isnone and x.I.truth(x.call(ty, "__contains__", got))
                if want is NO:
                    x.expect(not acc, "json-kind", cls + ".from_raw", f"{n} accepts the JSON value {raw!r} as {show(term_of(got))}")
                    continue
                if not x.expect(acc, "json-kind", cls + ".from_raw", f"{n} rejects the JSON value {raw!r}"):
                    continue
                x.expect(alike(x, got, want), "decoded-value", cls + ".from_raw", f"{n}: {raw!r} is decoded as {show(term_of(got))} instead of {want!r}")
                ct, cr = canon(n, want)
                r = x.attempt(lambda: x.call(ty, "to_raw", got))
                x.expect(r[0] == "ok" and alike(x, r[1], cr), "encoded-value", cls + ".to_raw", f"{n}: {want!r} is encoded as {r[1] if r[0] != 'ok' else show(term_of(r[1]))} instead of {cr!r}")
                r = x.attempt(lambda: x.call(ty, "canonical_string", got))
                x.expect(r[0] == "ok" and alike(x, r[1], ct), "canonical-form", cls + ".canonical_string", f"{n}: canonical form of {want!r} is {r[1] if r[0] != 'ok' else show(term_of(r[1]))} instead of {ct!r}")
                if n[:2] != "u-" or isinstance(want, (str, bool, int)):
                    r = x.attempt(lambda: x.call(ty, "parse_value", K(ct)))
                    x.expect(r[0] == "ok" and (alike(x, r[1], tuple(sorted(want, key=ct.index)) if ty.cls.name == "BitsType" else want) or n[:2] == "u-" and alike(x, r[1], ct)), "canonical-round-trip", cls + ".parse_value", f"{n}: canonical form {ct!r} of {want!r} is parsed as {r[1] if r[0] != 'ok' else show(term_of(r[1]))}")
        ck.scenario(f"{n}.from_raw", t, w)


# JSON kinds never acceptable for a type, whatever the content
KIND = {**{t: {"int"} for t in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "leafref", "rng", "td")},
        **{t: {"str"} for t in ("int64", "uint64", "decimal64", "string", "binary", "enumeration", "bits", "identityref", "instance-identifier", "lr64", "lrs", "d18", "d7", "u-is")},
        "boolean": {"bool"}, "empty": {"list"}, "union": {"int", "bool", "str"}, "u-si": {"str", "bool"}, "u-be": {"str", "int"}, "u-ee": {"str", "int", "list"}, "u-u": {"str", "int", "bool"}}


def kinds(ck):
    w = pw(ck)
    for n in ALLT:
        for k in ("int", "bool", "str", "float", "none", "list", "dict"):
            if k == "str" and n == "instance-identifier":
                continue            # texts are decided with constants only

            def t(x, n=n, k=k):
                ty = typ(x, n)
                raw = Sym(("raw", k), {k})
                r = x.attempt(lambda: x.call(ty, "from_raw", raw))
                x.expect(r[0] == "ok", "decoding-never-fails", ty.cls.name + ".from_raw", f"{n}: decoding any JSON {k} may raise {r[1]}")
                if r[0] == "ok" and k not in KIND[n]:
                    got = r[1]
                    x.expect((isinstance(got, K) and got.val is None) or not x.I.truth(x.call(ty, "__contains__", got)), "json-kind", ty.cls.name + ".from_raw", f"{n} accepts JSON {k} values")
            ck.scenario(f"{n}.from_raw/{k}", t, w)


def run(ck):
    ck.floor = 1500
    decode(ck)
    kinds(ck)
