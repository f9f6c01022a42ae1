"""C04: every must, leafref and instance-identifier constraint is enforced.

must expressions are uninterpreted Boolean atoms of their context node: the
validation code is interpreted for every outcome, and the verdict must equal
"some present node has a false must".  References are followed over trees of
distinct tokens with equal and different targets."""
import itertools
from .common import *
from ..spec import *
from ..world import S, leaf as sleaf
from .c05 import enum, truth


def verdict(x, inst, scope, ct="all"):
    return x.attempt(lambda: x.call(inst, "validate", enum(x, "ValidationScope", scope), enum(x, "ContentType", ct)))


def errinfo(x):
    """(path, tag, message) carried by the last raised exception."""
    e = x.last.exc
    g = lambda n: x.I.force(e.fields[n]) if n in e.fields else NONE
    inst = g("instance")
    path = tuple(getattr(k, "val", k) for k in seq(x.I, x.attr(inst, "path"))) if isinstance(inst, Obj) else None
    return path, getattr(g("tag"), "val", None), getattr(g("message"), "val", None)


MUSTS = {
    "leaf": ([cont("c", leaf("a", must="x-m"), leaf("b"))], {"m:c": {"a": 1, "b": 1}}, [("x-m", ("m:c", "a"))]),
    "two-leafs": ([cont("c", leaf("a", must="x-m"), leaf("b", must="x-n"))], {"m:c": {"a": 1, "b": 1}},
                  [("x-m", ("m:c", "a")), ("x-n", ("m:c", "b"))]),
    "absent-leaf": ([cont("c", leaf("a", must="x-m"), leaf("b", must="x-n"))], {"m:c": {"b": 1}}, [("x-n", ("m:c", "b"))]),
    "three-musts": ([cont("c", leaf("a", must=("x-m", "x-n", "x-o")))], {"m:c": {"a": 1}},
                    [(n, ("m:c", "a")) for n in ("x-m", "x-n", "x-o")]),
    "container": ([cont("c", cont("d", leaf("a"), must=("x-m", "x-n")), must="x-o")], {"m:c": {"d": {"a": 1}}},
                  [("x-m", ("m:c", "d")), ("x-n", ("m:c", "d")), ("x-o", ("m:c",))]),
    "empty-container": ([cont("c", must="x-m")], {"m:c": {}}, [("x-m", ("m:c",))]),
    "presence": ([cont("c", cont("p", leaf("a"), presence=True, must="x-m"))], {"m:c": {"p": {}}}, [("x-m", ("m:c", "p"))]),
    "list": ([cont("c", lst("l", leaf("k"), leaf("v"), keys=("k",), must=("x-m",)))], {"m:c": {"l": [{"k": 1}, {"k": 2}, {"k": 3, "v": 1}]}},
             [("x-m", ("m:c", "l", i)) for i in range(3)]),
    "list-member": ([cont("c", lst("l", leaf("k"), leaf("v", must="x-m"), keys=("k",)))], {"m:c": {"l": [{"k": 1}, {"k": 2, "v": 1}, {"k": 3, "v": 1}]}},
                    [("x-m", ("m:c", "l", i, "v")) for i in (1, 2)]),
    "list-key": ([lst("l", leaf("k", must="x-m"), keys=("k",))], {"m:l": [{"k": 1}, {"k": 2}]}, [("x-m", ("m:l", i, "k")) for i in (0, 1)]),
    "nested-list": ([lst("l", leaf("k"), lst("n", leaf("j"), keys=("j",), must="x-m"), keys=("k",))],
                    {"m:l": [{"k": 1, "n": [{"j": 1}]}, {"k": 2, "n": [{"j": 1}, {"j": 2}]}]},
                    [("x-m", ("m:l", 0, "n", 0)), ("x-m", ("m:l", 1, "n", 0)), ("x-m", ("m:l", 1, "n", 1))]),
    "leaf-list": ([cont("c", leaflist("l", must="x-m"))], {"m:c": {"l": ["a", "b", "c"]}}, [("x-m", ("m:c", "l", i)) for i in range(3)]),
    "leaf-list-2": ([leaflist("l", must=("x-m", "x-n"))], {"m:l": ["a", "b"]}, [(n, ("m:l", i)) for i in range(2) for n in ("x-m", "x-n")]),
    "anydata": ([cont("c", anydata("a", must="x-m"))], {"m:c": {"a": 1}}, [("x-m", ("m:c", "a"))]),
    "choice": ([cont("c", choice("ch", case("k", leaf("a", must="x-m"), cont("b", leaf("z"), must="x-n")), leaf("d", must="x-o")))],
               {"m:c": {"a": 1, "b": {"z": 1}}}, [("x-m", ("m:c", "a")), ("x-n", ("m:c", "b"))]),
    "uses": ([cont("c", group(leaf("a", must="x-m"), cont("b", must="x-n")))], {"m:c": {"a": 1, "b": {}}},
             [("x-m", ("m:c", "a")), ("x-n", ("m:c", "b"))]),
    "augment": ([cont("c", group(leaf("a", must="x-m"), lst("b", leaf("k"), keys=("k",), must="x-n"), via="augment"))], {"m:c": {"a": 1, "b": [{"k": 1}]}},
                [("x-m", ("m:c", "a")), ("x-n", ("m:c", "b", 0))]),
    "state": ([cont("c", leaf("s", must="x-m"), lst("l", leaf("v", must="x-n")), config=False)], {"m:c": {"s": 1, "l": [{"v": 1}, {"v": 1}]}},
              [("x-m", ("m:c", "s")), ("x-n", ("m:c", "l", 0, "v")), ("x-n", ("m:c", "l", 1, "v"))]),
    "top": ([leaf("a", must="x-m"), leaf("b", must="x-n")], {"m:a": 1, "m:b": 1}, [("x-m", ("m:a",)), ("x-n", ("m:b",))]),
}

CONS = {"leaf-list": "SequenceNode._validate", "list": "SequenceNode._validate", "nested-list": "SequenceNode._validate", "leaf-list-2": "SequenceNode._validate"}


def build(sc, v, tag="v"):
    if isinstance(v, dict):
        return sc.objd({k: build(sc, e, f"{tag}.{k}") for k, e in v.items()})
    if isinstance(v, list):
        return sc.arr(*[build(sc, e, f"{tag}.{i}") for i, e in enumerate(v)])
    return sc.token(tag)


def musts(ck):
    for name, (nodes, ins, expected) in MUSTS.items():
        w = world(ck, "c04-" + name, lambda p, nodes=nodes: World(p, [statements(nodes)]))
        # validation may start anywhere in the tree
        starts = [()] + sorted({p[:i] for _, p in expected for i in range(1, len(p) + 1)}, key=str)
        for start in starts:
            below = [(m, p) for m, p in expected if p[:len(start)] == start]
            for scope in ("semantics", "all", "syntax"):
                def t(x, ins=ins, start=start, below=below, scope=scope, name=name):
                    root = x.sc.root(build(x.sc, ins))
                    inst = x.sc.member(root, *start) if start else root
                    r = verdict(x, inst, scope)
                    cons = CONS.get(name, "DataNode._check_must")
                    what = f"{scope} validation of /{'/'.join(map(str, start))} (schema {name})"
                    T = truth(x)
                    if scope == "syntax":
                        x.expect(r[0] == "ok", "syntax-only", cons, f"{what} raises {r[1]}")
                        return
                    if r[0] == "ok":
                        bad = next((b for b in below if not T(*b)), None)
                        x.expect(bad is None, "must-enforced", cons, f"{what} succeeds although must {bad and bad[0]} of /{bad and '/'.join(map(str, bad[1]))} is false")
                    else:
                        if not x.expect(r[1] == "SemanticError", "documented-error", cons, f"{what} raises {r[1]}", x.last.loc):
                            return
                        path, tag, msg = errinfo(x)
                        bad = next((b for b in below if b[1] == path and not T(*b)), None)
                        x.expect(bad is not None, "must-reported", cons, f"{what} blames /{'/'.join(map(str, path or ()))} where every must is true", x.last.loc)
                        x.expect(tag == "must-violation", "must-tag", cons, f"{what} reports tag {tag}")
                ck.scenario(f"{name}/{'/'.join(map(str, start)) or '/'}/{scope}", t, w)


def subtrees(ck):
    """must on rpc input and output, action, notification."""
    nodes = []
    mod = module("m",
                 S("rpc", "op", S("input", None, S("must", "x-m"), S("leaf", "i", S("type", "string"), S("must", "x-n"))),
                   S("output", None, S("must", "x-o"), S("leaf", "o", S("type", "string")))),
                 S("notification", "nt", S("must", "x-p"), S("leaf", "n", S("type", "string"), S("must", "x-q"))))
    w = world(ck, "c04-sub", lambda p: World(p, [mod]))
    table = [("m:op", {"m:input": {"i": K("v")}}, [("x-m", ("m:input",)), ("x-n", ("m:input", "i"))]),
             ("m:op", {"m:output": {"o": K("v")}}, [("x-o", ("m:output",))]),
             ("m:nt", {"m:n": K("v")}, [("x-p", ()), ("x-q", ("m:n",))])]
    from ..world import pydict
    refs = module("m", sleaf("a"), S("rpc", "op", S("input", None, sleaf("i", lr("/m:a")), sleaf("j", lr("../i"))), S("output", None, S("leaf-list", "o", lr("../p")), sleaf("p"))),
                  S("notification", "nt", sleaf("n", lr("../p")), sleaf("p")))
    wr = world(ck, "c04-subref", lambda p: World(p, [refs]))
    for sub, raw, ok in (("m:op", {"m:input": {"i": "x"}}, False), ("m:op", {"m:output": {"o": ["x", "y"], "p": "x"}}, False),
                         ("m:op", {"m:output": {"o": ["x"], "p": "x"}}, True), ("m:nt", {"m:n": "x", "m:p": "x"}, True), ("m:nt", {"m:n": "x", "m:p": "y"}, False), ("m:nt", {"m:n": "x"}, False)):
        def tr(x, sub=sub, raw=raw, ok=ok):
            root = x.call(x.sc.dm, "from_raw", pydict(raw), K(sub))
            for scope in ("semantics", "all"):
                r = verdict(x, root, scope)
                if ok is not None:
                    x.expect(r[0] == "ok" if ok else r == ("raise", "SemanticError"), "reference-enforced", "TerminalNode._validate", f"{scope} validation of {sub} {raw}: {r[1] if r[0] == 'raise' else 'accepted'}", x.last.loc if r[0] == "raise" else None)
        ck.scenario(f"subref/{sub}/{list(raw)}/{ok}", tr, wr)
    for sub, raw, below in table:
        def t(x, sub=sub, raw=raw, below=below):
            root = x.call(x.sc.dm, "from_raw", pydict(raw), K(sub))
            r = verdict(x, root, "all")
            T = truth(x)
            cons = "NotificationNode" if sub == "m:nt" else "InputNode"
            if r[0] == "ok":
                bad = next((b for b in below if not T(*b)), None)
                x.expect(bad is None, "must-enforced", cons, f"validation of {sub} succeeds although must {bad and bad[0]} is false")
            else:
                x.expect(r[1] == "SemanticError", "documented-error", cons, f"validation of {sub} raises {r[1]}", x.last.loc)
                path, tag, msg = errinfo(x)
                x.expect(any(b[1] == path and not T(*b) for b in below), "must-reported", cons, f"validation of {sub} blames /{'/'.join(map(str, path or ()))}")
        ck.scenario(f"{sub}/{'+'.join(raw)}", t, w)


def messages(ck):
    def must(n, *info): return S("must", n, *info)
    TAG, MSG = S("error-app-tag", "my-tag"), S("error-message", "my message")
    for combo, tag, msg in (((), "must-violation", None), ((TAG,), "my-tag", None), ((MSG,), "must-violation", "my message"), ((TAG, MSG), "my-tag", "my message")):
        nodes = [cont("c", leaf("a", extra=(must("x-n"), must("x-m", *combo), must("x-o", S("error-app-tag", "other"), S("error-message", "other")))))]
        w = world(ck, f"c04-msg-{len(combo)}-{tag}", lambda p, nodes=nodes: World(p, [statements(nodes)]))

        def t(x, tag=tag, msg=msg):
            root = x.sc.root(build(x.sc, {"m:c": {"a": 1}}))
            T = truth(x)
            p = ("m:c", "a")
            if not T("x-n", p) or not T("x-o", p) or T("x-m", p):
                return
            r = verdict(x, root, "all")
            if x.expect(r == ("raise", "SemanticError"), "must-enforced", "DataNode._check_must", f"false must gives {r[1]}"):
                path, gt, gm = errinfo(x)
                x.expect((gt, gm) == (tag, msg), "constraint-error-info", "Must.__init__", f"reported {gt!r}, {gm!r}; the must defines {tag!r}, {msg!r}")
        ck.scenario(f"messages/{tag}/{msg}", t, w)


def lr(path, **kw):
    return S("type", "leafref", S("path", path), *[S("require-instance", v) for v in [kw.get("req")] if v])


def references(ck):
    def build1(sc, d):
        return sc.objd({k: (build1(sc, v) if isinstance(v, dict) else sc.arr(*[build1(sc, e) if isinstance(e, dict) else sc.token(e) for e in v]) if isinstance(v, list)
                            else v if isinstance(v, V) else sc.token(v)) for k, v in d.items()})
    tl = S("typedef", "tl", lr("/m:c/m:l/m:k"))
    nodes = [cont("c", lst("l", leaf("k"), leaf("v"), leaf("same", type=lr("../v")), keys=("k",)),
                  leaf("a"), leaflist("ll"), leaf("r", type=lr("../l/k")), leaf("rv", type=lr("../l/v")), leaf("ra", type=lr("../a")), leaf("rl", type=lr("../ll")),
                  leaflist("rs", type=lr("/m:c/m:l/m:k")), leaf("n", type=lr("../l/k", req="false")), leaf("t", type=lr("../l/k", req="true")),
                  lst("e", leaf("k"), leaf("r", type=lr("../../l/k")), keys=("k",)),
                  lst("f", leaf("k", type=lr("/c/l/k")), keys=("k",)),
                  choice("ch", case("k1", leaf("cr", type=lr("../l/k"))))),
             leaf("top", type=lr("/c/a")), leaf("via", type="tl"),
             cont("s", leaf("sr", type=lr("/c/a")), leaflist("sl", type=lr("/m:c/m:l/m:k")), lst("e", leaf("r", type=lr("../../sx"))), leaf("sx"), leaf("sn", type=lr("../sx", req="false")), config=False)]
    mod = statements(nodes)
    mod = (mod[0], mod[1], mod[2] + (tl,), mod[3])
    w = world(ck, "c04-ref", lambda p: World(p, [mod]))
    L = [{"k": "K1", "v": "V1"}, {"k": "K2", "v": "V2"}, {"k": "K3"}]
    table = [
        # (members of c, other top members, is it valid)
        ({"l": L, "r": "K1"}, {}, None), ({"l": L, "r": "K3"}, {}, None), ({"l": L, "r": "X"}, {}, "r"), ({"r": "K1"}, {}, "r"),
        ({"l": L, "r": "V1"}, {}, "r"), ({"l": L, "rv": "V2"}, {}, None), ({"l": L, "rv": "K1"}, {}, "rv"),
        ({"a": "A", "ra": "A"}, {}, None), ({"a": "A", "ra": "B"}, {}, "ra"), ({"ra": "A"}, {}, "ra"),
        ({"ll": ["P", "Q"], "rl": "Q"}, {}, None), ({"ll": ["P", "Q"], "rl": "Z"}, {}, "rl"), ({"ll": [], "rl": "Z"}, {}, "rl"),
        ({"l": L, "rs": ["K1", "K2"]}, {}, None), ({"l": L, "rs": ["X", "K2"]}, {}, "rs"), ({"l": L, "rs": ["K1", "X"]}, {}, "rs"),
        ({"l": L, "rs": ["K1", "K2", "X"]}, {}, "rs"), ({"l": L, "rs": []}, {}, None),
        ({"l": L, "n": "X"}, {}, None), ({"n": "X"}, {}, None), ({"l": L, "t": "X"}, {}, "t"), ({"l": L, "t": "K2"}, {}, None),
        ({"l": L, "e": [{"k": "1", "r": "K1"}, {"k": "2", "r": "K2"}]}, {}, None), ({"l": L, "e": [{"k": "1", "r": "K1"}, {"k": "2", "r": "X"}]}, {}, "e.r"),
        ({"l": L, "e": [{"k": "1", "r": "X"}, {"k": "2", "r": "K1"}]}, {}, "e.r"), ({"l": L, "e": [{"k": "1"}, {"k": "2", "r": "K1"}]}, {}, None),
        ({"l": L, "f": [{"k": "K1"}, {"k": "K3"}]}, {}, None), ({"l": L, "f": [{"k": "K1"}, {"k": "X"}]}, {}, "f.k"),
        ({"l": [{"k": "K1", "v": "V1", "same": "V1"}]}, {}, None), ({"l": [{"k": "K1", "v": "V1", "same": "V2"}, {"k": "K2", "v": "V2"}]}, {}, "same"),
        ({"l": [{"k": "K1", "v": "V1"}, {"k": "K2", "same": "V1"}]}, {}, "same"),
        ({"l": L, "cr": "K2"}, {}, None), ({"l": L, "cr": "X"}, {}, "cr"),
        ({"a": "A"}, {"m:top": "A"}, None), ({"a": "A"}, {"m:top": "B"}, "top"), ({}, {"m:top": "B"}, "top"),
        ({"a": "A"}, {"m:s": {"sr": "A"}}, None), ({"a": "A"}, {"m:s": {"sr": "B"}}, "sr"), ({}, {"m:s": {"sr": "B"}}, "sr"), ({"l": L}, {"m:s": {"sl": ["K1", "K3"]}}, None), ({"l": L}, {"m:s": {"sl": ["K1", "X"]}}, "sl"),
        ({}, {"m:s": {"sx": "A", "e": [{"r": "A"}, {}]}}, None), ({}, {"m:s": {"sx": "A", "e": [{"r": "A"}, {"r": "B"}]}}, "e.r"), ({}, {"m:s": {"sx": "A", "sn": "B"}}, None),
        ({"l": L}, {"m:via": "K2"}, None), ({"l": L}, {"m:via": "X"}, "via"),
    ]
    for i, (c, top, bad) in enumerate(table):
        def t(x, c=c, top=top, bad=bad):
            d = dict(top)
            d["m:c"] = c
            root = x.sc.root(build1(x.sc, d))
            for scope in ("semantics", "all", "syntax"):
                r = verdict(x, root, scope)
                what = f"{scope} validation of {c} {top or ''}"
                if bad and scope != "syntax":
                    x.expect(r == ("raise", "SemanticError"), "reference-enforced", "TerminalNode._validate", f"{what}: {r[1] if r[0] == 'raise' else 'accepted'} although {bad} refers to nothing",
                             x.last.loc if r[0] == "raise" else None)
                    if r == ("raise", "SemanticError"):
                        path, tag, msg = errinfo(x)
                        x.expect(tag == "instance-required", "reference-tag", "TerminalNode._validate", f"{what}: tag {tag}")
                        x.expect(path and str(path[-1] if isinstance(path[-1], str) else path[-2]).split(":")[-1] == bad.split(".")[-1], "reference-reported", "TerminalNode._validate", f"{what}: blames {path}")
                else:
                    x.expect(r[0] == "ok", "valid-accepted", "TerminalNode._validate", f"{what}: {r[1]} raised", x.last.loc if r[0] == "raise" else None)
        ck.scenario(f"leafref/{i}", t, w, Config(steps=400000))


def instance_ids(ck):
    def ii(req=None):
        return S("type", "instance-identifier", *([S("require-instance", req)] if req else []))
    nodes = [cont("c", lst("l", leaf("k"), leaf("v"), keys=("k",)), leaf("a"), leaflist("ll"), leaf("i", type=ii()), leaf("n", type=ii("false")), leaflist("is", type=ii("true")))]
    w = world(ck, "c04-iid", lambda p: World(p, [statements(nodes)]))
    C = [("/m:c/a", True), ("/m:c", True), ("/m:c/l[k='K1']", True), ("/m:c/l[k='K1']/v", True), ("/m:c/l[k='K2']/v", False), ("/m:c/l[k='KX']", False),
         ("/m:c/l[1]", True), ("/m:c/l[3]", False), ("/m:c/ll[.='P']", True), ("/m:c/ll[.='X']", False), ("/m:c/ll[2]", True), ("/m:c/ll[4]", False), ("/m:c/nonsense", False), ("/m:d", False)]
    for text, ok in C:
        for mem in ("i", "n", "is"):
            def t(x, text=text, ok=ok, mem=mem):
                sc = x.sc
                rt = x.call(sc.dm, "parse_instance_id", K(text))
                d = {"l": sc.arr(sc.objd({"k": K("K1"), "v": sc.token("v")}), sc.objd({"k": K("K2")})), "a": sc.token("a"), "ll": sc.arr(K("P"), K("Q"))}
                good = x.call(sc.dm, "parse_instance_id", K("/m:c/a"))
                d[mem] = sc.arr(good, rt) if mem == "is" else rt
                root = sc.root(sc.objd({"m:c": sc.objd(d)}))
                r = verdict(x, root, "semantics")
                if ok or mem == "n" or (mem == "is" and text == "/m:c/a"):
                    if not (mem == "is" and text == "/m:c/a"):
                        x.expect(r[0] == "ok", "valid-accepted", "TerminalNode._validate", f"{mem} = {text}: {r[1]} raised", x.last.loc if r[0] == "raise" else None)
                else:
                    x.expect(r == ("raise", "SemanticError"), "reference-enforced", "TerminalNode._validate", f"{mem} = {text} refers to nothing but validation gives {r[1] if r[0] == 'raise' else 'no error'}")
            ck.scenario(f"instance-identifier/{mem}/{text}", t, w, Config(steps=400000))


def run(ck):
    ck.floor = 400
    musts(ck)
    subtrees(ck)
    messages(ck)
    references(ck)
    instance_ids(ck)
