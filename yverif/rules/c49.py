"""C49: validation errors name the violating instance, the rule and the details.

A grouping with every kind of constraint is used at different places; documents
with exactly one fault at one place are validated from every instance on the
way, and the error must be the documented one."""
import copy
from .common import *
from .c11 import L
from .c28 import plain
from .c47 import Real
from .types import tmodule
from ..world import S, leaf as sleaf, module

INFO = (S("error-app-tag", "my-tag"), S("error-message", "my message"))


def mods():
    must = lambda e, *s: S("must", e, *s)
    g = S("grouping", "g",
          sleaf("m", "string", S("mandatory", "true")), sleaf("n", S("type", "int8", S("range", "1..10"))), sleaf("s", S("type", "string", S("length", "1..3", *INFO))), sleaf("p", S("type", "string", S("pattern", "[a-z]*"))),
          S("leaf-list", "ll", S("type", "uint8")), S("leaf-list", "lt", S("type", "int8", S("range", "1..5", *INFO))),
          S("list", "l", S("key", "k j"), S("unique", "u"), S("unique", "v lc/w"), sleaf("k"), sleaf("j"), sleaf("u"), sleaf("v"), S("container", "lc", sleaf("w")), S("container", "lp", S("presence", "x"), sleaf("z", "string", S("mandatory", "true")))),
          S("list", "l1", S("key", "k"), S("max-elements", "3"), must("not(../p = 'noll')"), sleaf("k", "uint8"), sleaf("t", "uint8", must(". < 5", *INFO))),
          sleaf("ref", S("type", "leafref", S("path", "../n"))), sleaf("rl", S("type", "leafref", S("path", "../l1/k"))), sleaf("iid", "instance-identifier"), sleaf("lax", S("type", "leafref", S("path", "../n"), S("require-instance", "false"))),
          S("container", "mc", must("a = 'x'", *INFO), sleaf("a"), sleaf("b")), sleaf("mt", "string", must(". != 'bad'")), sleaf("mt2", "string", must("1", S("error-app-tag", "no"), S("error-message", "no")), must(". != 'bad'", S("error-message", "second"))),
          sleaf("mt3", "string", must(". != 'x1'", S("error-message", "one")), must(". != 'x2'"), must(". != 'x3'", S("error-app-tag", "three"), S("error-message", "third")), must(". != 'x4'", S("error-app-tag", "four"))),
          S("leaf-list", "lm", S("type", "string"), must(". != 'bad'", S("error-app-tag", "lm-tag"))),
          S("container", "box", S("presence", "x"), S("leaf-list", "mm", S("type", "string"), S("min-elements", "2"), S("max-elements", "3"))),
          S("container", "chc", S("presence", "x"), S("choice", "ch", S("mandatory", "true"), sleaf("c1"), S("case", "c2", sleaf("c2a"), sleaf("c2b")))),
          sleaf("w", "string", S("when", "../n = 1")), S("container", "wc", S("when", "../n = 1"), S("presence", "x"), sleaf("q")))
    m = module("m", g, S("container", "c", S("presence", "x"), S("uses", "g")),
               S("list", "hl", S("key", "hk"), sleaf("hk"), S("uses", "g"), S("list", "in", S("key", "ik"), sleaf("ik"), S("uses", "g"))),
               S("container", "hc", S("choice", "hch", S("case", "a", S("container", "cc", S("presence", "x"), S("uses", "g"))), sleaf("other"))), S("container", "h2"),
               S("rpc", "op", S("input", None, S("container", "ic", S("uses", "g"))), S("output", None, sleaf("x"))))
    o = module("o", S("import", "m", S("prefix", "m")), S("augment", "/m:h2", S("container", "oc", S("presence", "x"), S("uses", "m:g"))))
    return [m, o]


GOOD = {"m": "x", "n": 5, "s": "ab", "p": "abc", "ll": [1, 2], "lt": [1, 2, 3], "l": [{"k": "1", "j": "1", "u": "a", "v": "q"}, {"k": "1", "j": "2", "u": "b", "v": "p", "lc": {"w": "r"}}], "l1": [{"k": 1, "t": 1}, {"k": 2}], "ref": 5, "rl": 2, "lax": 9, "mc": {"a": "x"}, "mt": "ok", "lm": ["a", "b"], "box": {"mm": ["1", "2"]}, "chc": {"c2a": "v"}}
MIN = {"m": "x", "n": 4, "ref": 4}
X = object()
# name: ({member path: value | X (absent)}, class, path, tag, message or word in it, kind)
SYN, SEM = "syntax", "semantics"
FAULTS = {
    "mandatory": ({("m",): X}, "SchemaError", (), "missing-data", ("'m'",), SYN),
    "mandatory-in-entry": ({("l", 1, "lp"): {}}, "SchemaError", ("l", 1, "lp"), "missing-data", ("'z'",), SYN),
    "choice": ({("chc",): {}}, "SchemaError", ("chc",), "missing-data", (), SYN),
    "two-cases": ({("chc",): {"c2a": "v", "c1": "w"}}, "SchemaError", ("chc",), "member-not-allowed", "c1", SYN),
    "two-cases-2": ({("chc",): {"c1": "v", "c2b": "w"}}, "SchemaError", ("chc",), "member-not-allowed", "c2b", SYN),
    "when": ({("w",): "x"}, "SchemaError", (), "member-not-allowed", "w", SYN),
    "when-container": ({("wc",): {"q": "x"}}, "SchemaError", (), "member-not-allowed", "wc", SYN),
    "range": ({("n",): 99, ("ref",): X}, "YangTypeError", ("n",), "invalid-type", (), SYN),
    "length": ({("s",): "abcd"}, "YangTypeError", ("s",), "my-tag", "my message", SYN),
    "pattern": ({("p",): "A"}, "YangTypeError", ("p",), "invalid-type", ("A",), SYN),
    "entry-type": ({("lt", 2): 77}, "YangTypeError", ("lt", 2), "my-tag", "my message", SYN),
    "entry-type-0": ({("lt", 0): 6}, "YangTypeError", ("lt", 0), "my-tag", "my message", SYN),
    "repeated": ({("ll",): [1, 2, 1]}, "SemanticError", ("ll",), "repeated-leaf-list-values", None, SEM),
    "few": ({("box", "mm"): ["1"]}, "SemanticError", ("box", "mm"), "too-few-elements", None, SEM),
    "many": ({("box", "mm"): ["1", "2", "3", "4"]}, "SemanticError", ("box", "mm"), "too-many-elements", None, SEM),
    "many-entries": ({("l1",): [{"k": i} for i in (1, 2, 3, 4)]}, "SemanticError", ("l1",), "too-many-elements", None, SEM),
    "key": ({("l", 1, "j"): "1"}, "SemanticError", ("l",), "non-unique-key", (), SEM),
    "single-key": ({("l1", 1, "k"): 1, ("rl",): X}, "SemanticError", ("l1",), "non-unique-key", "1", SEM),
    "no-key": ({("l", 1, "j"): X}, "SchemaError", ("l", 1), "list-key-missing", "j", "both"),
    "no-key-0": ({("l1", 0, "k"): X}, "SchemaError", ("l1", 0), "list-key-missing", "k", "both"),
    "unique": ({("l", 1, "u"): "a"}, "SemanticError", ("l",), "data-not-unique", ("1",), SEM),
    "unique-2": ({("l", 1, "v"): "q", ("l", 0, "lc"): {"w": "r"}}, "SemanticError", ("l",), "data-not-unique", ("1",), SEM),
    "leafref": ({("ref",): 6}, "SemanticError", ("ref",), "instance-required", None, SEM),
    "leafref-list": ({("rl",): 3}, "SemanticError", ("rl",), "instance-required", None, SEM),
    "instance-id": ({("iid",): "/m:c/b"}, "SemanticError", ("iid",), "instance-required", None, SEM),
    "must-container": ({("mc", "a"): "y"}, "SemanticError", ("mc",), "my-tag", "my message", SEM),
    "must-leaf": ({("mt",): "bad"}, "SemanticError", ("mt",), "must-violation", None, SEM),
    "must-leaf-2": ({("mt2",): "bad"}, "SemanticError", ("mt2",), "must-violation", "second", SEM),
    "must-x1": ({("mt3",): "x1"}, "SemanticError", ("mt3",), "must-violation", "one", SEM),
    "must-x2": ({("mt3",): "x2"}, "SemanticError", ("mt3",), "must-violation", None, SEM),
    "must-x3": ({("mt3",): "x3"}, "SemanticError", ("mt3",), "three", "third", SEM),
    "must-x4": ({("mt3",): "x4"}, "SemanticError", ("mt3",), "four", None, SEM),
    "must-entry": ({("lm", 1): "bad"}, "SemanticError", ("lm", 1), "lm-tag", None, SEM),
    "must-list": ({("p",): "noll"}, "SemanticError", ("l1", 0), "must-violation", None, SEM),
    "must-in-list": ({("l1", 1, "t"): 7}, "SemanticError", ("l1", 1, "t"), "my-tag", "my message", SEM)}
HOLDERS = {"container": (None, lambda v: {"m:c": v}, ("m:c",)), "entry": (None, lambda v: {"m:hl": [{"hk": "1", **MIN}, {"hk": "2", **v}]}, ("m:hl", 1)), "nested": (None, lambda v: {"m:c": MIN, "m:hl": [{"hk": "1", **MIN, "in": [{"ik": "a", **MIN}, {"ik": "b", **v}]}]}, ("m:hl", 0, "in", 1)),
           "case": (None, lambda v: {"m:hc": {"cc": v}}, ("m:hc", "cc")), "augment": (None, lambda v: {"m:h2": {"o:oc": v}}, ("m:h2", "o:oc")), "input": ("m:op", lambda v: {"m:input": {"ic": v}}, ("m:input", "ic"))}


def edited(v, edits):
    v = copy.deepcopy(v)
    for path, val in edits.items():
        d = v
        for k in path[:-1]:
            d = d[k]
        if val is X:
            del d[path[-1]]
        else:
            d[path[-1]] = val
    return v


def at(x, node, path):
    for k in path:
        node = x.I.getitem(node, K(k))
    return node


def validate(x, node, scope):
    E = lambda n, c: x.I.getattr_(x.p.cls(c), n)
    return x.attempt(lambda: x.call(node, "validate", E(scope, "ValidationScope"), E("all", "ContentType")))


def run(ck):
    ck.floor = 4000
    w = world(ck, "c49", lambda p: Real(p, mods()))
    cfg = Config(steps=3 * 10**7, rec=120, depth=400)
    for hn, (op, wrap, where) in HOLDERS.items():
        def load(x, v):
            r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(wrap(v)), *([K(op)] if op else [])))
            return r[1] if x.expect(r[0] == "ok", "valid-accepted", "DataModel.from_raw", f"{wrap(v)}: {r[1]}", x.last.loc if r[0] == "raise" else None) else None

        def good(x, load=load, hn=hn, where=where, op=op):
            missing = edited(GOOD, {})
            root = load(x, missing)
            for s in ("syntax", "semantics", "all"):
                for k in range(len(where) + 1):
                    r = validate(x, at(x, root, where[:k]), s)
                    x.expect(r[0] == "ok", "valid-accepted", "InstanceNode.validate", f"{s} validation of a valid document ({hn}): {r[1]}", x.last.loc if r[0] == "raise" else None)
        ck.scenario(f"valid {hn}", good, w, cfg)
        for half in range(6):
            def t(x, load=load, hn=hn, where=where, op=op, half=half):
                for fn, (edits, cls, rel, tag, msg, kind) in list(FAULTS.items())[half::6]:
                    if ck.tier != "thorough" and hn in ("case", "entry", "augment") and fn in list(FAULTS)[("case", "entry", "augment").index(hn)::2]:
                        continue        # about half of the faults each
                    if fn == "repeated" and op or fn == "instance-id" and op:
                        continue        # not configuration; no data tree
                    root = load(x, edited(GOOD, edits))
                    if root is None:
                        continue
                    full = where + rel
                    what = f"fault {fn} in {hn}"
                    for s in ("syntax", "semantics", "all"):
                        if kind == "both" and s == "syntax":
                            continue
                        wrong = s == "all" or kind in (s, "both")
                        # an entry's key, and a list entry's must, are seen from the list
                        upto = len(full)
                        for k in range(upto + 1) if s == "all" else (0, len(where)) if wrong else (0,):
                            if k == len(full) and fn.startswith("no-key") or fn == "must-list" and k == len(full):
                                continue
                            node = at(x, root, full[:k])
                            r = validate(x, node, s)
                            here = f"{s} validation of /{'/'.join(map(str, full[:k]))} with {what}"
                            if not wrong:
                                x.expect(r[0] == "ok", "scope-respected", "InstanceNode.validate", f"{here} raises {r[1]}", x.last.loc if r[0] == "raise" else None)
                                continue
                            if not x.expect(r == ("raise", cls), "error-class", "InstanceNode.validate", f"{here}: {r[1] if r[0] == 'raise' else 'accepted'} instead of {cls}", x.last.loc if r[0] == "raise" else None):
                                continue
                            e = x.last.exc
                            inst = x.I.force(x.attr(e, "instance"))
                            got = plain(x, x.attr(inst, "path"))
                            x.expect(got == full, "error-instance", f"{cls}", f"{here} blames /{'/'.join(map(str, got))} instead of /{'/'.join(map(str, full))}", x.last.loc)
                            x.expect(plain(x, x.attr(inst, "value")) == plain(x, x.attr(at(x, root, full), "value")), "error-instance", f"{cls}", f"{here}: the instance in the error has another value", x.last.loc)
                            gt, gm = plain(x, x.attr(e, "tag")), plain(x, x.attr(e, "message"))
                            x.expect(gt == tag, "error-tag", f"{cls}", f"{here} has the tag {gt!r} instead of {tag!r}", x.last.loc)
                            ok = gm == msg if not isinstance(msg, tuple) else msg == () or isinstance(gm, str) and all(z in gm for z in msg)
                            x.expect(ok, "error-message", f"{cls}", f"{here} has the message {gm!r} instead of {msg!r}", x.last.loc)
                            text = plain(x, x.I.str_(e))
                            route = plain(x, x.I.str_(x.call(at(x, root, full), "instance_route")))
                            want = "{" + route + "} " + str(gt) + (f": {gm}" if gm else "")
                            x.expect(text == want, "error-text", "ValidationError.__str__", f"{here} is printed as {text!r} instead of {want!r}")
            ck.scenario(f"faults {hn} {half}", t, w, cfg)
