"""C08: restrictions of types accept exactly the values they describe.

Interval membership is decided over uninterpreted ordered points (all
orderings, hence all numbers); restriction texts and typedef chains are
interpreted abstractly and probed at every boundary."""
import itertools
from decimal import Decimal
from .common import *
from ..world import S, leaf as sleaf, module

INT = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
       "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}


def has(x, t, v):
    return x.I.truth(x.call(t, "__contains__", v))


def typ(x, name):
    return x.attr(x.sc.node(name), "type")


def intervals(ck):
    """Membership in a list of intervals over ordered points."""
    shapes = [[2], [1], [2, 2], [1, 2], [2, 1], [2, 1, 2], [1, 1], [2, 2, 2], [2, 1, 2, 1], [1, 2, 2, 2], [1, 1, 1, 1, 1], [2, 2, 1, 2, 1, 2]]
    for shape in shapes:
        def t(x, shape=shape):
            pts, iv, bounds = [], [], []
            r = 1
            for n in shape:
                ends = [Sym(("p", r + 2 * i), {"int"}, rank=r + 2 * i) for i in range(n)]
                bounds.append((r, r + 2 * (n - 1)))
                iv.append(Lst("list", ends))
                r += 2 * n
            I = x.sc.new("Intervals", Lst("list", iv))
            for k in range(0, r + 1):
                v = Sym(("p", k), {"int"}, rank=k)
                want = any(lo <= k <= hi for lo, hi in bounds)
                x.expect(has(x, I, v) == want, "interval-membership", "Intervals.__contains__",
                         f"a value {'inside' if want else 'outside'} intervals {bounds} (point {k}) is {'rejected' if want else 'accepted'}")
        ck.scenario(f"Intervals.__contains__/{shape}", t, None)


def builtin(ck):
    mod = module("m", *[sleaf(n, n) for n in INT],
                 *[sleaf(f"d{fd}", S("type", "decimal64", S("fraction-digits", str(fd)))) for fd in (1, 2, 9, 18)])
    w = world(ck, "c08-builtin", lambda p: World(p, [mod]))

    def t(x):
        for n, (lo, hi) in INT.items():
            ty = typ(x, n)
            cls = n.capitalize() + "Type"
            for v, want in ((lo, True), (hi, True), (lo - 1, False), (hi + 1, False), (lo + 1, True), (hi - 1, True), (0, True), (1, True)):
                x.expect(has(x, ty, K(v)) == want, "builtin-bounds", cls, f"{n} {'rejects' if want else 'accepts'} {v}")
            for v in (K(True), K("1"), K(1.5), NONE, K(Decimal(1))):
                x.expect(not has(x, ty, v), "builtin-kind", cls, f"{n} accepts {v!r}")
        for fd in (1, 2, 9, 18):
            ty = typ(x, f"d{fd}")
            lo, hi = Decimal(-2**63).scaleb(-fd), Decimal(2**63 - 1).scaleb(-fd)
            e = Decimal(1).scaleb(-fd)
            import decimal
            with decimal.localcontext() as c:
                c.prec = 40
                for v, want in ((lo, True), (hi, True), (Decimal(0), True), (lo - 1000 * e, False), (hi + 1000 * e, False)):
                    x.expect(has(x, ty, K(v)) == want, "builtin-bounds", "Decimal64Type", f"decimal64 with {fd} fraction digits {'rejects' if want else 'accepts'} {v}")
            for v in (K(1), K("1.0"), K(1.0), NONE):
                x.expect(not has(x, ty, v), "builtin-kind", "Decimal64Type", f"decimal64 accepts {v!r}")
    ck.scenario("builtin", t, w)


def member(iv, v):
    return any(lo <= v <= hi for lo, hi in iv)


# chains of range expressions on uint8, with the denoted intervals
RANGES = [
    (["10..20"], [(10, 20)]), (["5"], [(5, 5)]), (["1..4 | 10..20"], [(1, 4), (10, 20)]), (["1 | 3..5 | 9"], [(1, 1), (3, 5), (9, 9)]),
    (["min..10"], [(0, 10)]), (["250..max"], [(250, 255)]), (["min..max"], [(0, 255)]), (["min..3 | 9..max"], [(0, 3), (9, 255)]),
    (["min | max"], [(0, 0), (255, 255)]), (["min | 5..6 | max"], [(0, 0), (5, 6), (255, 255)]), (["4..4"], [(4, 4)]),
    ([" 1 .. 4|10..20 "], [(1, 4), (10, 20)]),
    (["10..20", "12..18"], [(12, 18)]), (["10..20", "min..15"], [(10, 15)]), (["10..20", "15..max"], [(15, 20)]), (["10..20", "min..max"], [(10, 20)]),
    (["10..20", "min | max"], [(10, 10), (20, 20)]), (["1..4 | 10..20", "min..3 | 11..max"], [(1, 3), (11, 20)]),
    (["1..4 | 10..20", "min | 12..13 | max"], [(1, 1), (12, 13), (20, 20)]), (["1..4 | 10..20", "2..3"], [(2, 3)]), (["1..4 | 10..20", "10..max"], [(10, 20)]),
    (["10..20", "12..18", "13..max"], [(13, 18)]), (["10..20", "12..18", "min..14 | 16..max"], [(12, 14), (16, 18)]), (["1 | 3..5 | 9", "min..1 | 4..max"], None),
    (["1..3 | 9 | 11..20 | 30"], [(1, 3), (9, 9), (11, 20), (30, 30)]), (["min | 2 | 4..5 | 7..9 | 20..max"], [(0, 0), (2, 2), (4, 5), (7, 9), (20, 255)]),
    (["1..9 | 20..40", "1 | 3 | 5..6 | 21..30 | 40"], [(1, 1), (3, 3), (5, 6), (21, 30), (40, 40)]),
    (["1 | 3..5 | 9", "min | 4 | max"], [(1, 1), (4, 4), (9, 9)]),
]


def chain(base, kw, exprs, name, via):
    """Typedef chain (or a leaf restriction) applying `exprs` in turn."""
    tds, cur = [], base
    n = len(exprs)
    for i, e in enumerate(exprs):
        ty = S("type", cur, S(kw, e)) if not isinstance(cur, tuple) else S(cur[0], cur[1], *cur[2], S(kw, e))
        if i == n - 1 and via == "leaf":
            return tds, ty
        t = f"t-{name}-{i}"
        tds.append(S("typedef", t, ty))
        cur = t
    return tds, S("type", cur)


def ranges(ck):
    body, probes = [], []
    for i, (exprs, iv) in enumerate(RANGES):
        if iv is None:
            continue
        for via in ("leaf", "typedef"):
            nm = f"r{i}{via}"
            tds, ty = chain("uint8", "range", exprs, nm, via)
            body += tds + [S("leaf", nm, ty)]
            probes.append((nm, iv, exprs, "n"))
    for i, (exprs, iv) in enumerate(RANGES):
        if iv is None or max(h for l, h in iv) == 255:
            continue
        for bt in ("string", "binary"):
            nm = f"l{i}{bt}"
            tds, ty = chain(bt, "length", exprs, nm, "leaf")
            body += tds + [S("leaf", nm, ty)]
            probes.append((nm, iv, exprs, bt))
    body += [S("leaf", "lmax", S("type", "string", S("length", "2..max"))), S("leaf", "plain", S("type", "string"))]
    dec = [("1.5..2.5", [("1.5", "2.5")]), ("min..-1.25 | 0 | 1.75..max", [("-92233720368547758.08", "-1.25"), ("0", "0"), ("1.75", "92233720368547758.07")]), ("3.14", [("3.14", "3.14")])]
    for i, (e, iv) in enumerate(dec):
        body.append(S("leaf", f"dec{i}", S("type", "decimal64", S("fraction-digits", "2"), S("range", e))))
    mod = module("m", *body)
    w = world(ck, "c08-ranges", lambda p: World(p, [mod]))
    for nm, iv, exprs, kind in probes:
        def t(x, nm=nm, iv=iv, exprs=exprs, kind=kind):
            ty = typ(x, nm)
            vs = sorted({0, 1, 255} | {q for lo, hi in iv for q in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1) if q >= 0})
            for v in vs:
                if kind != "n" and v > 60:
                    continue
                a = K(v) if kind == "n" else K("x" * v) if kind == "string" else K(b"x" * v)
                want = member(iv, v) and (v <= 255 or kind != "n")
                x.expect(has(x, ty, a) == want, "range-membership" if kind == "n" else "length-membership",
                         "NumericType.__contains__" if kind == "n" else "LinearType.__contains__",
                         f"type restricted by {' then '.join(exprs)} {'rejects' if want else 'accepts'} {'length ' if kind != 'n' else ''}{v}")
        ck.scenario(f"restriction/{nm}/{'>'.join(exprs)}", t, w)

    def t2(x):
        for n, want in ((0, False), (1, False), (2, True), (70, True)):
            x.expect(has(x, typ(x, "lmax"), K("x" * n)) == want, "length-membership", "LinearType.__contains__", f"length 2..max {'rejects' if want else 'accepts'} length {n}")
        x.expect(has(x, typ(x, "plain"), K("")), "length-membership", "LinearType.__contains__", "unrestricted string rejects the empty string")
        for i, (e, iv) in enumerate(dec):
            ivs = [(Decimal(a), Decimal(b)) for a, b in iv]
            for v in {p + d for lo, hi in ivs for p in (lo, hi) for d in (Decimal("-0.01"), Decimal(0), Decimal("0.01"))}:
                want = member(ivs, v)
                x.expect(has(x, typ(x, f"dec{i}"), K(v)) == want, "range-membership", "NumericType.__contains__", f"decimal64 in {e} {'rejects' if want else 'accepts'} {v}")
    ck.scenario("restriction/misc", t2, w)


def malformed(ck):
    for kw, base, texts in (("range", "uint8", ["1..2..3", "a..b", "1 | x", "", "1..", "x"]), ("length", "string", ["1..2..3", "a", "", "-"])):
        for tx in texts:
            mod = module("m", S("leaf", "a", S("type", base, S(kw, tx))))

            def t(x, mod=mod, tx=tx, kw=kw):
                x.raises(lambda: World(x.p, [mod]).build(x.I), "InvalidArgument", "malformed-restriction", "Intervals.restrict_with", f"{kw} {tx!r}")
            ck.scenario(f"malformed/{kw}/{tx}", t, None, Config(steps=10**6))


def patterns(ck):
    def pat(e, inv=False): return S("pattern", e, *([S("modifier", "invert-match")] if inv else []))
    tds = [S("typedef", "t1", S("type", "string", pat("[a-c]*"))), S("typedef", "t2", S("type", "t1", pat("a.*"), S("length", "1..3"))),
           S("typedef", "t3", S("type", "t2", pat(".*b", True)))]
    leafs = {"p1": (S("type", "t1"), ["", "a", "abc"], ["d", "ad", "da", "abcd"]),
             "p2": (S("type", "t2"), ["a", "ab", "abc"], ["", "b", "ad", "aaaa"]),
             "p3": (S("type", "t3"), ["a", "ac"], ["ab", "b", "acb", "ad"]),
             "p4": (S("type", "string", pat("a+"), pat("[ab]*"), pat("aaa", True)), ["a", "aa", "aaaa"], ["aaa", "b", "ab", ""]),
             "p5": (S("type", "string", pat("x|yz")), ["x", "yz"], ["xz", "xyz", "y", "z"]),
             "p6": (S("type", "t1", pat("c", True)), ["", "a", "cc"], ["c", "d"]),
             "p8": (S("type", "string", pat("a^b$?")), ["a^b", "a^b$"], ["ab", "a", ""]),
             "p9": (S("type", "string", pat("a.c")), ["abc", "a c"], ["a\nc", "abc\n", " abc"]),
             "p7": (S("type", "string", pat("a"), S("length", "1")), ["a"], ["", "aa", "b"])}
    mod = module("m", *tds, *[S("leaf", n, ty) for n, (ty, y, nn) in leafs.items()])

    w = world(ck, "c08-pat", lambda p: World(p, [mod]))

    def t(x):
        for n, (ty, yes, no) in leafs.items():
            for s in yes + no:
                want = s in yes
                x.expect(has(x, typ(x, n), K(s)) == want, "pattern-conjunction", "StringType.__contains__", f"string {s!r} {'rejected' if want else 'accepted'} by type {n} {[(q[1], len(q[2]) > 0) for q in ty[2]]}")
    ck.scenario("StringType.__contains__/patterns", t, w)


def badpattern(ck):
    for e in ("[", "(a", "a*?", "(a)\\1"):
        mod = module("m", S("leaf", "a", S("type", "string", S("pattern", e))))

        def t(x, mod=mod, e=e):
            x.raises(lambda: World(x.p, [mod]).build(x.I), "InvalidArgument", "malformed-restriction", "Pattern", f"pattern {e!r}")
        ck.scenario(f"malformed/pattern/{e}", t, None, Config(steps=10**6))


def enums(ck):
    def E(*ns): return [S("enum", n) for n in ns]
    def B(*ns): return [S("bit", n) for n in ns]
    tds = [S("typedef", "e1", S("type", "enumeration", *E("a", "b", "c", "d"))), S("typedef", "e2", S("type", "e1", *E("a", "c", "d"))),
           S("typedef", "b1", S("type", "bits", *B("a", "b", "c", "d"))), S("typedef", "b2", S("type", "b1", *B("a", "d")))]
    leafs = {"en0": (S("type", "enumeration", *E("a", "b")), "ab"), "en1": (S("type", "e1"), "abcd"), "en2": (S("type", "e2"), "acd"), "en3": (S("type", "e2", *E("d")), "d"),
             "bi0": (S("type", "bits", *B("a", "b")), "ab"), "bi1": (S("type", "b1"), "abcd"), "bi2": (S("type", "b2"), "ad"), "bi3": (S("type", "b2", *B("d")), "d")}
    mod = module("m", *tds, *[S("leaf", n, ty) for n, (ty, m) in leafs.items()])
    w = world(ck, "c08-enum", lambda p: World(p, [mod]))

    def t(x):
        for n, (ty, mem) in leafs.items():
            for c in "abcdz":
                v = K(c) if n[0] == "e" else Lst("tuple", [K(c)])
                cls = "EnumerationType" if n[0] == "e" else "BitsType"
                x.expect(has(x, typ(x, n), v) == (c in mem), "named-values", cls + "._handle_restrictions", f"type {n} (with values {mem}) {'rejects' if c in mem else 'accepts'} {c}")
            if n[0] == "b":
                x.expect(has(x, typ(x, n), Lst("tuple", [])), "named-values", "BitsType.__contains__", f"{n} rejects the empty set")
                x.expect(has(x, typ(x, n), Lst("tuple", [K(c) for c in mem])), "named-values", "BitsType.__contains__", f"{n} rejects all its bits")
                x.expect(not has(x, typ(x, n), Lst("tuple", [K(mem[0]), K("z")])), "named-values", "BitsType.__contains__", f"{n} accepts an unknown second bit")
    ck.scenario("enumerations", t, w)

    def t0(x):
        e1, b1 = typ(x, "en1"), typ(x, "bi1")
        x.expect([k for k, v in entries(x.I, x.attr(e1, "enum"))] == list("abcd"), "restriction-leaves-base", "EnumerationType._handle_restrictions", "restricting a derived type changes the base type")
        vals = {k: v.val for k, v in entries(x.I, x.attr(typ(x, "en2"), "enum"))}
        x.expect(vals == {"a": 0, "c": 2, "d": 3}, "restriction-keeps-values", "EnumerationType._handle_restrictions", f"values of the restricted enumeration are {vals}")
        vals = {k: v.val for k, v in entries(x.I, x.attr(typ(x, "bi2"), "bit"))}
        x.expect(vals == {"a": 0, "d": 3}, "restriction-keeps-values", "BitsType._handle_restrictions", f"positions of the restricted bits are {vals}")
    ck.scenario("enumeration-values", t0, w)


def run(ck):
    ck.floor = 700
    intervals(ck)
    builtin(ck)
    ranges(ck)
    malformed(ck)
    patterns(ck)
    badpattern(ck)
    enums(ck)
