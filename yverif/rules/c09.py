"""C09: a failing membership test always sets error tag and message of this failure."""
from decimal import Decimal
from .common import *
from .types import *

TAG, MSG = S("error-app-tag", "my-tag"), S("error-message", "my message")


def yes(x, t, v):
    return x.I.truth(x.call(t, "__contains__", v))


def stale(t):
    t.fields["error_tag"], t.fields["error_message"] = K("stale"), K("stale")


def text(x, v):
    return isinstance(v, K) and isinstance(v.val, str) and v.val not in ("", "stale") or (isinstance(v, Sym) and x.I.kinds(v) == {"str"})


def info(x, t):
    return x.attr(t, "error_tag"), x.attr(t, "error_message")


def kinds(ck):
    w = tworld(ck)
    for n in TYPES:
        def t(x, n=n):
            ty = typ(x, n)
            cls = ty.cls.name
            for k, v in cooked(x).items():
                stale(ty)
                for sub in ty.fields.get("types").items if "types" in ty.fields else ():
                    stale(sub)
                if n == "leafref":
                    stale(x.attr(ty, "ref_type"))
                r = x.attempt(lambda: x.call(ty, "__contains__", v))
                if not x.expect(r[0] == "ok", "membership-never-raises", cls + ".__contains__", f"testing a value of kind {k} against {n} raises {r[1]}"):
                    continue
                got = x.I.truth(r[1])
                x.expect(got == (k in MEMBERS[n]), "membership", cls + ".__contains__", f"a value of kind {k} is {'accepted' if got else 'rejected'} by {n}")
                if not got:
                    tag, msg = info(x, ty)
                    x.expect(text(x, tag), "error-tag-set", cls + ".__contains__", f"rejecting a value of kind {k} leaves the error tag of {n} at {show(term_of(tag))}")
                    x.expect(text(x, msg), "error-message-set", cls + ".__contains__", f"rejecting a value of kind {k} leaves the error message of {n} at {show(term_of(msg))}")
                    if n not in ("union", "leafref"):
                        x.expect(isinstance(tag, K) and tag.val == "invalid-type", "error-tag-set", cls + ".__contains__", f"rejecting a value of kind {k} by {n} sets the tag {show(term_of(tag))}")
        ck.scenario(f"{n}.__contains__", t, w)


# (type statement, good, [(bad value, expected tag, expected message or None)])
def custom():
    r = S("range", "1..10", TAG, MSG)
    ln = S("length", "1..2", TAG, MSG)
    p = S("pattern", "[ab]*", TAG, MSG)
    D = "invalid-type"
    return {
        "r": (S("type", "int8", r), K(5), [(K(0), "my-tag", "my message"), (K(11), "my-tag", "my message"), (K("a"), D, None)]),
        "rt": (S("type", "int8", S("range", "1..10", TAG)), K(5), [(K(0), "my-tag", None), (K("x"), D, None)]),
        "rm": (S("type", "int8", S("range", "1..10", MSG)), K(5), [(K(0), D, "my message")]),
        "rd": (S("type", "int8", S("range", "1..10")), K(5), [(K(0), D, None)]),
        "dr": (S("type", "decimal64", S("fraction-digits", "1"), r), K(Decimal("5.5")), [(K(Decimal("0.5")), "my-tag", "my message"), (K(0), D, None)]),
        "ln": (S("type", "string", ln), K("a"), [(K(""), "my-tag", "my message"), (K("abc"), "my-tag", "my message"), (K(1), D, None)]),
        "bl": (S("type", "binary", ln), K(b"a"), [(K(b""), "my-tag", "my message"), (K("a"), D, None)]),
        "p": (S("type", "string", p), K("ab"), [(K("c"), "my-tag", "my message: c"), (K(1), D, None)]),
        "pi": (S("type", "string", S("pattern", "x", S("modifier", "invert-match"), TAG, MSG)), K("ab"), [(K("x"), "my-tag", "my message: x")]),
        "p2": (S("type", "string", S("pattern", "a*", S("error-app-tag", "t1"), S("error-message", "m1")), S("pattern", ".{2}", S("error-app-tag", "t2"), S("error-message", "m2"))),
               K("aa"), [(K("bb"), "t1", "m1: bb"), (K("aaa"), "t2", "m2: aaa"), (K("b"), "t1", "m1: b")]),
        "lp": (S("type", "string", S("length", "2", S("error-app-tag", "tl"), S("error-message", "ml")), p), K("ab"), [(K("a"), "tl", "ml"), (K("cc"), "my-tag", "my message: cc")]),
        "td": (S("type", "tr"), K(5), [(K(0), "my-tag", "my message")]),
        "td2": (S("type", "tr", S("range", "3..4", S("error-app-tag", "new"), S("error-message", "newm"))), K(3), [(K(5), "new", "newm"), (K(0), "new", "newm")]),
        "u": (S("type", "union", S("type", "int8", r), S("type", "string", p)), K(5), [(K(0), None, None), (K("c"), None, None), (TRUE, None, None)]),
    }


def customs(ck):
    cases = custom()
    mod = module("m", S("typedef", "tr", S("type", "int8", S("range", "1..10", TAG, MSG))), *[S("leaf", n, c[0]) for n, c in cases.items()],
                 S("leaf", "lr", S("type", "leafref", S("path", "/m:r"))))
    w = world(ck, "c09-custom", lambda p: World(p, [mod]))
    cases["lr"] = (None, K(5), [(K(0), "my-tag", "my message"), (K("a"), "invalid-type", None)])

    def check(x, n, ty, bad, tag, msg, how):
        cls = ty.cls.name
        x.expect(not yes(x, ty, bad), "membership", cls + ".__contains__", f"{bad!r} accepted by {n}")
        gt, gm = info(x, ty)
        x.expect(isinstance(gt, K) and (gt.val == tag if tag else text(x, gt)), "error-info-of-violated-restriction", cls + ".__contains__", f"tag {gt!r} instead of {tag} for {bad!r} {how} (type {n})")
        x.expect(text(x, gm) and (msg is None or isinstance(gm, K) and gm.val == msg) and not (tag == "invalid-type" and msg is None and isinstance(gm, K) and gm.val.startswith("my message")),
                 "error-info-of-violated-restriction", cls + ".__contains__", f"message {gm!r} instead of {msg} for {bad!r} {how} (type {n})")
    for n, (_, good, bads) in cases.items():
        for i, (b1, t1, m1) in enumerate(bads):
            def t(x, n=n, good=good, bads=bads, b1=b1, t1=t1, m1=m1):
                ty = typ(x, n)
                check(x, n, ty, b1, t1, m1, "first")
                for b2, t2, m2 in bads:
                    yes(x, ty, b1)
                    check(x, n, ty, b2, t2, m2, "after another failure")
                yes(x, ty, b1)
                x.expect(yes(x, ty, good), "membership", ty.cls.name + ".__contains__", f"{good!r} rejected by {n}")
                check(x, n, ty, b1, t1, m1, "after a success")
            ck.scenario(f"{n}/{i}", t, w)

        def tv(x, n=n, bads=bads):
            for b, tag, msg in bads:
                root = x.sc.root(x.sc.objd({"m:" + n: b}))
                r = x.raises(lambda: x.call(root, "validate"), "YangTypeError", "type-error-raised", "TerminalNode._validate", f"validating {n} = {b!r}")
                if not r:
                    continue
                e = x.last.exc
                gt, gm = x.attr(e, "tag"), x.attr(e, "message")
                x.expect(isinstance(gt, K) and (gt.val == tag if tag else text(x, gt)), "error-reported", "TerminalNode._validate", f"error for {n} = {b!r} carries tag {gt!r} instead of {tag}")
                x.expect(text(x, gm) and (msg is None or isinstance(gm, K) and gm.val == msg), "error-reported", "TerminalNode._validate", f"error for {n} = {b!r} carries message {gm!r} instead of {msg}")
                x.expect(x.attr(x.attr(e, "instance"), "value") is b or term_of(x.attr(x.attr(e, "instance"), "value")) == term_of(b), "error-reported", "TerminalNode._validate", f"error for {n} does not point at the failing instance")
        ck.scenario(f"validate/{n}", tv, w)


def musts(ck):
    mod = module("m", S("container", "c", sleaf("a", "string", S("must", "x-1", TAG, MSG), S("must", "x-2"), S("must", "x-3", S("error-app-tag", "third"))), S("must", "x-4", MSG)))
    w = world(ck, "c09-must", lambda p: World(p, [mod]))
    EX = {"x-1": ("my-tag", "my message"), "x-2": ("must-violation", None), "x-3": ("third", None), "x-4": ("must-violation", "my message")}

    def t(x):
        root = x.sc.root(x.sc.objd({"m:c": x.sc.objd({"a": K("v")})}))
        r = x.attempt(lambda: x.call(root, "validate"))
        if r[0] == "ok":
            return
        e = x.last.exc
        gt, gm = x.attr(e, "tag"), x.attr(e, "message")
        false = [n for n, pt, node in x.I.xlog if not x.I.truth(Sym(("xp", n, pt), {"bool"}))]
        x.expect(r[1] == "SemanticError" and any(isinstance(gt, K) and gt.val == EX[n][0] and (EX[n][1] is None or isinstance(gm, K) and gm.val == EX[n][1]) for n in false[-1:]),
                 "must-error-info", "DataNode._check_must", f"violated {false}: tag {gt!r}, message {gm!r}")
        at = x.attr(x.attr(e, "instance"), "name") if false else NONE
        x.expect(isinstance(at, K) and at.val == ("m:c" if false[-1] == "x-4" else "a"), "must-error-info", "DataNode._check_must", f"error of {false[-1:]} points at {at!r}")
    ck.scenario("must", t, w)


def run(ck):
    ck.floor = 700
    kinds(ck)
    customs(ck)
    musts(ck)
