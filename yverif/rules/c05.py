"""C05: syntactic validation accepts exactly the structure the schema allows.

Each schema below is described once (yverif.spec); the repository's code is
interpreted abstractly to build the data model and to validate, and its verdict
is compared with RFC 7950's on every combination of present members, every
outcome of the `when` conditions and each content type."""
import itertools
from .common import *
from ..spec import *
from .. import spec


def variants(nodes, top=True):
    """All combinations of present members (as nested dicts)."""
    per = []
    for n in data_nodes(nodes):
        nm = ("m:" if top else "") + n.name
        if n.kind == "container":
            vs = [(nm, v) for v in variants(n.children, False)]
        elif n.kind == "list":
            sub = list(variants(n.children, False))
            full = sub[-1]
            vs = [(nm, [v]) for v in sub] + [(nm, [full, v]) for v in sub[:-1]]
            if len(sub) <= 8:       # conditions of one entry say nothing about the next
                vs += [(nm, [u, v]) for u in sub[:-1] for v in sub]
        elif n.kind == "leaf-list":
            vs = [(nm, ["a"])]
        else:
            vs = [(nm, "v")]
        per.append([None] + vs)
    for combo in itertools.product(*per):
        yield dict(c for c in combo if c is not None)


def build(sc, inst, tag="v"):
    d = {}
    for k, v in inst.items():
        d[k] = val(sc, v, f"{tag}.{k}")
    return sc.objd(d)


def val(sc, v, tag):
    if isinstance(v, dict):
        return build(sc, v, tag)
    if isinstance(v, list):
        return sc.arr(*[val(sc, e, f"{tag}.{i}") for i, e in enumerate(v)])
    return sc.token(tag)


def enum(x, cname, member):
    return x.I.force(x.I.getattr_(x.p.cls(cname), member))


def truth(x):
    def T(name, path):
        return x.I.truth(Sym(("xp", name, tuple(path)), {"bool"}))
    return T


SCHEMAS = {
    "leaf": [cont("c", leaf("a", mandatory=True), leaf("b"), presence=True)],
    "np-mandatory": [cont("o", cont("i", leaf("a", mandatory=True)), leaf("b"), presence=True)],
    "np-deep": [cont("o", cont("i", cont("j", leaf("a", mandatory=True))))],
    "np-state-first": [cont("o", cont("i", leaf("s", mandatory=True, config=False), leaf("a", mandatory=True)))],
    "np-state-last": [cont("o", cont("i", leaf("a", mandatory=True), leaf("s", mandatory=True, config=False)))],
    "np-state-only": [cont("o", cont("i", leaf("s", mandatory=True, config=False)), leaf("b"))],
    "presence": [cont("o", cont("i", leaf("a", mandatory=True), presence=True), leaf("b"))],
    "state": [cont("c", leaf("a"), leaf("s", config=False), leaf("t", config=False, mandatory=True), presence=True)],
    "state-container": [cont("c", cont("s", leaf("x", mandatory=True), leaf("y"), config=False), leaf("a"), presence=True)],
    "choice": [cont("c", choice("ch", leaf("a"), leaf("b"), leaf("d")), presence=True)],
    "choice-mandatory": [cont("c", choice("ch", leaf("a"), leaf("b"), mandatory=True), presence=True)],
    "choice-mandatory-3": [cont("c", choice("ch", leaf("a"), leaf("b"), leaf("d"), mandatory=True), presence=True)],
    "choice-single": [cont("c", choice("ch", leaf("a"), mandatory=True), leaf("b"), presence=True)],
    "choice-single-case": [cont("c", choice("ch", case("k", leaf("a"), leaf("b")), mandatory=True), presence=True)],
    "choice-np": [cont("o", cont("i", choice("ch", leaf("a"), leaf("b"), mandatory=True)))],
    "choice-state": [cont("c", choice("ch", leaf("a", config=False, mandatory=True)), leaf("b"), presence=True)],
    "choice-state-case": [cont("c", choice("ch", case("k", leaf("a"), leaf("s", config=False)), leaf("b")), presence=True)],
    "choice-all-state": [cont("c", choice("ch", leaf("a"), leaf("b"), mandatory=True, config=False), presence=True)],
    "cases": [cont("c", choice("ch", case("k1", leaf("a", mandatory=True), leaf("b")), case("k2", leaf("d"))), presence=True)],
    "cases-2": [cont("c", choice("ch", case("k1", leaf("a"), leaf("b")), case("k2", leaf("d"), leaf("e", mandatory=True))), presence=True)],
    "cases-optional": [cont("c", choice("ch", case("k1", leaf("a"), leaf("b")), case("k2", leaf("d"), leaf("e")), case("k3", leaf("f"), leaf("g"))), presence=True)],
    "cases-mixed": [cont("c", choice("ch", case("k1", leaf("a"), leaf("b"), leaf("z", mandatory=True)), case("k2", leaf("d"), leaf("e")), mandatory=True), presence=True)],
    "choice-nested": [cont("c", choice("ch", case("k1", choice("in", leaf("a"), leaf("b"), mandatory=True), leaf("e")), leaf("d")), presence=True)],
    "choice-nested-direct": [cont("c", choice("ch", choice("in", leaf("a"), leaf("b")), leaf("d")), presence=True)],
    "two-choices": [cont("c", choice("c1", leaf("a"), leaf("b")), choice("c2", leaf("d"), leaf("e"), mandatory=True), presence=True)],
    "when-leaf": [cont("c", leaf("a", when="x-w"), leaf("b", when="x-v", mandatory=True), presence=True)],
    "when-container": [cont("c", cont("d", leaf("a"), when="x-w"), leaf("b"), presence=True)],
    "when-choice": [cont("c", choice("ch", leaf("a"), leaf("b"), when="x-w", mandatory=True), leaf("d"), presence=True)],
    "when-case": [cont("c", choice("ch", case("k1", leaf("a"), when="x-w"), case("k2", leaf("b"), when="x-v")), presence=True)],
    "when-case-leaf": [cont("c", choice("ch", case("k1", leaf("a", when="x-v"), leaf("e"), when="x-w"), leaf("b")), presence=True)],
    "uses": [cont("c", group(leaf("a", mandatory=True), leaf("b")), leaf("d"), presence=True)],
    "uses-when": [cont("c", group(leaf("a", mandatory=True), leaf("b"), when="x-w"), leaf("d"), presence=True)],
    "uses-when-choice": [cont("c", group(choice("ch", leaf("a"), leaf("b")), when="x-w"), presence=True)],
    "augment": [cont("c", group(leaf("a"), via="augment"), leaf("d"), presence=True)],
    "augment-when": [cont("c", group(leaf("a"), cont("e", leaf("f")), when="x-w", via="augment"), leaf("d"), presence=True)],
    "augment-choice": [cont("c", choice("ch", leaf("a"), group(leaf("b"), via="augment")), presence=True)],
    "augment-choice-when": [cont("c", choice("ch", leaf("a"), group(leaf("b"), when="x-w", via="augment")), presence=True)],
    "augment-choice-when-2": [cont("c", choice("ch", leaf("a"), group(leaf("b"), leaf("d"), when="x-w", via="augment")), presence=True)],
    "augment-case": [cont("c", choice("ch", case("k", leaf("a"), group(leaf("b"), via="augment")), leaf("d")), presence=True)],
    "list": [cont("c", lst("l", leaf("k"), leaf("a", mandatory=True), leaf("b"), keys=("k",)), presence=True)],
    "list-when": [lst("l", leaf("k"), leaf("a", when="x-w", mandatory=True), leaf("b"), keys=("k",))],
    "list-when-container": [lst("l", cont("d", leaf("a", when="x-w", mandatory=True)), config=False)],
    "list-when-choice": [lst("l", choice("ch", leaf("a", mandatory=True), leaf("b"), when="x-w", mandatory=True), config=False)],
    "list-when-case": [lst("l", choice("ch", case("k1", leaf("a"), when="x-w"), leaf("b")), config=False)],
    "list-when-uses": [lst("l", group(leaf("a", mandatory=True), leaf("b"), when="x-w"), config=False)],
    "list-min": [cont("c", lst("l", leaf("k"), keys=("k",), min=1), leaf("b"), presence=True)],
    "leaf-list-min": [cont("c", leaflist("l", min=1), leaf("b"), presence=True)],
    "list-min-np": [cont("o", cont("i", leaflist("l", min=1)), leaf("b"))],
    "list-nested": [cont("c", lst("l", leaf("k"), cont("d", choice("ch", leaf("a", when="x-w"), leaf("b"))), keys=("k",)))],
    "anydata": [cont("c", anydata("a", mandatory=True), leaf("b"), presence=True)],
    "top-choice": [choice("ch", leaf("a"), leaf("b"), mandatory=True), leaf("d")],
    "top-mandatory": [leaf("a", mandatory=True), cont("c", leaf("b"))],
}


def wrong(msg):
    return msg or "valid"


def check_schema(ck, name, nodes):
    w = world(ck, "c05-" + name, lambda p: World(p, [statements(nodes)]))
    insts = list(variants(nodes))
    if len(insts) > 70 and ck.tier == "quick":
        insts = insts[:20] + insts[20::max(1, len(insts) // 20)]
    insts += [r for r in map(backwards, insts) if desc(r) not in set(map(desc, insts))]        # the order of members is irrelevant
    for ins in insts:
        for ct, cn in ((ALL, "all"), (CONFIG, "config")):
            def t(x, ins=ins, ct=ct, cn=cn):
                root = x.sc.root(build(x.sc, ins))
                r = x.attempt(lambda: x.call(root, "validate", enum(x, "ValidationScope", "syntax"), enum(x, "ContentType", cn)))
                want = spec.valid(nodes, ins, ct, truth(x))
                cons = "InternalNode._check_schema_pattern" if name in ("leaf", "state", "uses") else f"{name}-schema validation"
                what = f"{desc(ins)} as {cn} data of schema {name}"
                if want is None:
                    x.expect(r[0] == "ok", "valid-accepted", cons, f"{what} is valid but {r[1]} is raised", getattr(x, "last", None) and x.last.loc)
                else:
                    x.expect(r[0] == "raise", "invalid-rejected", cons, f"{what} is accepted although invalid: {want}")
                    if r[0] == "raise":
                        x.expect(r[1] == "SchemaError", "documented-error", cons, f"{what}: {r[1]} raised instead of SchemaError", x.last.loc)
            ck.scenario(f"{name}/{desc(ins)}/{cn}", t, w)


def backwards(ins):
    if isinstance(ins, dict):
        return {k: backwards(v) for k, v in reversed(ins.items())}
    return ins


def desc(ins):
    if isinstance(ins, dict):
        return "{" + ",".join(k + (desc(v) if isinstance(v, (dict, list)) else "") for k, v in ins.items()) + "}"
    return "[" + ",".join(desc(v) if isinstance(v, (dict, list)) else "" for v in ins) + "]"


def unknown_members(ck):
    nodes = [cont("c", leaf("a"), cont("d", leaf("x")), lst("l", leaf("k"), leaf("v"), keys=("k",)), choice("ch", leaf("e"), leaf("f")))]
    w = world(ck, "c05-unknown", lambda p: World(p, [statements(nodes)]))
    full = {"m:c": {"a": 1, "d": {"x": 1}, "l": [{"k": 1, "v": 1}, {"k": 1}], "e": 1}}
    import copy
    for pos in ((), ("m:c",), ("m:c", "d"), ("m:c", "l", 0), ("m:c", "l", 1)):
        for nm in ("zz", "m:zz", "k", "x", "q:a", "ch"):
            if pos and (nm == pos[-1]) or (pos == ("m:c", "d") and nm == "x") or (len(pos) == 3 and nm == "k"):
                continue
            ins = copy.deepcopy(full)
            cur = ins
            for k in pos:
                cur = cur[k]
            cur[nm] = 1

            def t(x, ins=ins, nm=nm, pos=pos):
                root = x.sc.root(build(x.sc, ins))
                for scope in ("syntax", "all"):
                    x.raises(lambda: x.call(root, "validate", enum(x, "ValidationScope", scope), enum(x, "ContentType", "all")),
                             "SchemaError", "unknown-member", "InternalNode._validate", f"unknown member {nm} at /{'/'.join(map(str, pos))}")
            ck.scenario(f"unknown/{'/'.join(map(str, pos))}/{nm}", t, w)


def scalars(ck):
    """A value outside its type is reported wherever it occurs."""
    nodes = [leaf("t", type="uint8"), leaflist("tl", type="uint8"),
             cont("c", leaf("a", type="uint8"), cont("d", leaf("x", type="uint8")), choice("ch", case("k", leaf("e", type="uint8"))),
                  lst("l", leaf("k", type="uint8"), leaf("v", type="uint8"), leaflist("ll", type="uint8"), keys=("k",)))]
    w = world(ck, "c05-scalars", lambda p: World(p, [statements(nodes)]))

    def inst(sc, bad):
        n = [0]

        def v():
            n[0] += 1
            return K(300) if n[0] - 1 == bad else K(n[0])
        r = sc.objd({"m:t": v(), "m:tl": sc.arr(v(), v(), v()),
                     "m:c": sc.objd({"a": v(), "d": sc.objd({"x": v()}), "e": v(),
                                     "l": sc.arr(*[sc.objd({"k": v(), "v": v(), "ll": sc.arr(v(), v())}) for _ in range(2)])})})
        return r, n[0]
    total = 7 + 2 * 4
    for bad in range(-1, total):
        def t(x, bad=bad):
            v, n = inst(x.sc, bad)
            assert n == total, n
            root = x.sc.root(v)
            for scope in ("syntax", "all", "semantics"):
                f = lambda: x.call(root, "validate", enum(x, "ValidationScope", scope), enum(x, "ContentType", "all"))
                if bad >= 0 and scope != "semantics":
                    x.raises(f, "YangTypeError", "type-checked", "TerminalNode._validate", f"scalar {bad} of {total} is outside uint8 ({scope})")
                else:
                    r = x.attempt(f)
                    x.expect(r[0] == "ok", "valid-accepted", "TerminalNode._validate", f"{scope} validation raises {r[1]}")
        ck.scenario(f"scalars/{bad}", t, w)


def run(ck):
    ck.floor = 800
    for name, nodes in SCHEMAS.items():
        check_schema(ck, name, nodes)
    unknown_members(ck)
    scalars(ck)
