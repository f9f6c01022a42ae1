"""C26: every library exception can be constructed, printed and caught as documented.

Raise statements are bound against the constructor of the class they name; and
the error scenarios of the other rules are interpreted again, judging every
library exception met on the way: what it carries, what it prints."""
import ast
from .common import *
from ..world import ModelRejected

ROOT = "YangsonException"
# documented in yangson.exceptions (and its docstrings): class -> base it is caught by
BASES = {
    "AnnotationException": [ROOT], "MissingAnnotationTarget": ["AnnotationException"], "UndefinedAnnotation": ["AnnotationException"], "AnnotationTypeError": ["AnnotationException"],
    "BadSchemaNodeType": ["SchemaNodeException"], "BadYangLibraryData": [ROOT], "CyclicImports": [ROOT], "DefinitionNotFound": [ROOT], "EndOfInput": ["ParserException"],
    "FeaturePrerequisiteError": [ROOT], "InstanceException": [ROOT], "InstanceValueError": ["InstanceException"], "InvalidArgument": [ROOT], "InvalidFeatureExpression": ["ParserException"],
    "InvalidKeyValue": [ROOT], "InvalidLeafrefPath": ["SchemaNodeException"], "InvalidSchemaPath": [ROOT], "InvalidXPath": ["ParserException"], "MissingModule": [ROOT], "MissingModuleNamespace": [ROOT],
    "ModuleContentMismatch": [ROOT], "ModuleNameMismatch": ["ModuleContentMismatch"], "ModuleNotFound": ["MissingModule"], "ModuleRevisionMismatch": ["ModuleContentMismatch"],
    "ModuleNotImplemented": ["MissingModule"], "ModuleNotImported": [ROOT], "ModuleNotRegistered": ["MissingModule"], "MultipleImplementedRevisions": [ROOT],
    "NonexistentInstance": ["InstanceException"], "NonDataNode": ["InstanceException"], "NonexistentSchemaNode": ["SchemaNodeException"], "NotSupported": ["ParserException"], "ParserException": [ROOT],
    "RawDataError": [ROOT], "RawMemberError": ["RawDataError"], "RawTypeError": ["RawDataError"], "SchemaError": ["ValidationError"], "SchemaNodeException": [ROOT], "SemanticError": ["ValidationError"],
    "StatementNotFound": [ROOT], "UnexpectedInput": ["ParserException"], "UnknownPrefix": [ROOT], "ValidationError": [ROOT], "XPathTypeError": [ROOT], "YangTypeError": ["ValidationError"]}
APART = [("SchemaError", "SemanticError"), ("SchemaError", "YangTypeError"), ("SemanticError", "YangTypeError"), ("InstanceException", "ValidationError"), ("RawDataError", "ValidationError"),
         ("EndOfInput", "UnexpectedInput"), ("InvalidXPath", "NotSupported"), ("NonexistentInstance", "InstanceValueError"), ("RawMemberError", "RawTypeError"), ("ModuleNotFound", "ModuleNotRegistered"),
         ("NonexistentSchemaNode", "BadSchemaNodeType"), ("MissingModule", "UnknownPrefix"), ("NonDataNode", "NonexistentInstance")]
TEXT = {"str", "JSONPointer", "InstanceName", "YangIdentifier", "PrefName", "SchemaPath"}
STORED = {"arg": "argument", "kw": "keyword"}


# ---- what an exception carries and prints --------------------------------

def init_of(p, c):
    r = p.find(c, "__init__")
    return r[1].node.args if r and isinstance(r[1], Fn) else None


def annotation(a):
    """(name, optional) of a parameter annotation."""
    if a is None:
        return None, True
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        a = ast.parse(a.value, mode="eval").body
    if isinstance(a, ast.Subscript) and ast.unparse(a.value).endswith("Optional"):
        return annotation(a.slice)[0], True
    if isinstance(a, ast.BinOp) and ast.unparse(a.right) == "None":
        return annotation(a.left)[0], True
    return ast.unparse(a), False


def concrete(I, v):
    v = I.force(v)
    return v.val if isinstance(v, K) and isinstance(v.val, str) else None


def is_text(I, v):
    v = I.force(v)
    return "str" in I.kinds(v) and len(I.kinds(v)) == 1 if isinstance(v, (K, Sym)) else isinstance(v, Obj) and isinstance(v.payload, K)


def fitting(I, v, kind):
    p = I.p
    if kind in TEXT:
        return is_text(I, v)
    if kind in ("InstanceNode", "Parser"):
        return isinstance(v, Obj) and isinstance(v.cls, Cls) and p.issub(v.cls, p.cls(kind))
    if kind in ("QualName", "ModuleId"):
        return isinstance(v, Lst) and len(v.items) == 2 and all(I.force(i) == NONE or I.force(i) is NONE or is_text(I, i) or getattr(I.force(i), "val", "") is None for i in v.items)
    return True


def judge(I, e, name):
    exc, p = e.exc, I.p
    c = exc.cls
    if not (isinstance(c, Cls) and p.issub(c, p.cls(ROOT))):
        return []
    res = []
    where = f"{c.name} raised in {e.loc[1]}" if isinstance(e.loc, tuple) else c.name
    loc = e.loc

    def say(cond, rule, msg):
        res.append((bool(cond), rule, where, msg if not cond else None, loc))
        return cond

    try:
        t = I.force(I.call(Ext("builtins.str"), [exc]))
    except AbsRaise as f:
        say(False, "printable", f"printing the {c.name} of {name} raises {getattr(f.exc.cls, 'name', '?')}: at {fmt_loc(f.loc)}")
        return res
    if not say(is_text(I, t), "printable", f"the {c.name} of {name} prints {t!r}, not a string"):
        return res
    txt = concrete(I, t)
    a = init_of(p, c)
    for prm in (a.args[1:] if a else ()):
        at = STORED.get(prm.arg, prm.arg)
        if at not in exc.fields:
            continue
        kind, opt = annotation(prm.annotation)
        v = I.force(exc.fields[at])
        none = isinstance(v, K) and v.val is None
        if none and (opt or kind == "ScalarValue"):
            continue
        if not say(fitting(I, v, kind), "carries", f"{c.name}.{at} is {v!r} in {name}, documented as {kind}"):
            continue
        if kind in TEXT and txt is not None and concrete(I, v) is not None and at != "ns":
            say(concrete(I, v) in txt, "tells", f"the message of {c.name}, {txt!r}, does not contain its {at} {concrete(I, v)!r}")
        if kind == "ModuleId" and txt is not None and concrete(I, v.items[0]) is not None:
            say(concrete(I, v.items[0]) in txt, "tells", f"the message of {c.name}, {txt!r}, does not contain its {at}")
        if kind == "QualName" and txt is not None and concrete(I, v.items[0]):
            say(concrete(I, v.items[0]) in txt, "tells", f"the message of {c.name}, {txt!r}, does not name the schema node {concrete(I, v.items[0])}")
        if kind == "InstanceNode" and txt is not None:
            r = concrete(I, I.str_(I.call(I.getattr_(v, "instance_route"), [])))
            if r is not None:
                say(r in txt, "tells", f"the message of {c.name}, {txt!r}, does not contain the instance route {r}")
        if kind == "Parser" and txt is not None:
            s, o = concrete(I, I.getattr_(v, "input")), I.force(I.getattr_(v, "offset"))
            if s is not None and isinstance(o, K) and "\n" in s:
                pos = f"line {s.count(chr(10), 0, o.val) + 1}, column {o.val - s.rfind(chr(10), 0, o.val) - 1}"
                say((txt + " ").replace(":", " ").startswith(pos + " "), "tells", f"the message of {c.name} at offset {o.val} of {s!r}, {txt!r}, does not name {pos}")
            elif s is not None and isinstance(o, K) and s:
                say(s[:o.val] in txt and s[o.val:] in txt, "tells", f"the message of {c.name}, {txt!r}, does not show the input {s!r}")
    if "message" in exc.fields and txt is not None and concrete(I, exc.fields["message"]):
        say(concrete(I, exc.fields["message"]) in txt, "tells", f"the message of {c.name}, {txt!r}, does not contain {concrete(I, exc.fields['message'])!r}")
    return res


# ---- raise statements -----------------------------------------------------

def binds(args, call):
    """Why the call cannot be bound to the parameters, or None."""
    pos = [a.arg for a in args.posonlyargs + args.args][1:]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len(call.args)
    if star or dstar:
        n = sum(not isinstance(a, ast.Starred) for a in call.args)
    if n > len(pos) and args.vararg is None:
        return f"takes {len(pos)} arguments but {n} are given"
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"argument {k.arg} is given twice"
        if k.arg not in pos + [a.arg for a in args.kwonlyargs] and args.kwarg is None:
            return f"has no argument {k.arg}"
        given.add(k.arg)
    if not star and not dstar:
        need = pos[:len(pos) - len(args.defaults)] + [a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
        miss = [a for a in need if a not in given]
        if miss:
            return f"is raised without {', '.join(miss)}"
    return None


def caught_here(fn, node, exc):
    """Whether an enclosing try in the same function handles a builtin exception of that name."""
    up = {}
    for n in ast.walk(fn):
        for ch in ast.iter_child_nodes(n):
            up[ch] = n
    import builtins
    E_ = getattr(builtins, exc)
    n = node
    while n in up and n is not fn:
        m = up[n]
        if isinstance(m, ast.Try) and n in m.body:
            for h in m.handlers:
                names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                for t in names:
                    d = getattr(builtins, ast.unparse(t), None) if t is not None else BaseException
                    if isinstance(d, type) and issubclass(E_, d):
                        return True
        n = m
    return False


def sites(ck):
    import builtins
    p = ck.p
    for m, q, fn, cls in p.source.functions():
        env = p.modules[m].env if m in p.modules else {}
        own = [n for st in fn.body for n in ast.walk(st)]
        inner = {n for st in own if isinstance(st, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(st) if n is not st}
        for n in own:
            if not isinstance(n, ast.Raise) or n.exc is None or n in inner:
                continue
            f = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            at = f"{p.modules[m].path}:{n.lineno} {q}"
            ck.sites.append(at)
            name = ast.unparse(f)
            v = None
            if isinstance(f, ast.Name):
                v = env.get(f.id)
            elif isinstance(f, ast.Attribute):
                v = p.classes.get(f.attr)
            if isinstance(v, Cls):
                ck.oblige(p.issub(v, p.cls(ROOT)), "belongs", f"{q} raise {name}", f"{name} is raised, which is not a {ROOT}", at)
                a = init_of(p, v)
                if a is not None and isinstance(n.exc, ast.Call):
                    why = binds(a, n.exc)
                    ck.oblige(why is None, "constructible", f"{q} raise {name}", f"{name} {why}", at)
                elif a is not None:
                    ck.oblige(len(a.args) - len(a.defaults) <= 1, "constructible", f"{q} raise {name}", f"{name} is raised without arguments", at)
                else:
                    ck.oblige(not isinstance(n.exc, ast.Call) or not n.exc.keywords, "constructible", f"{q} raise {name}", f"{name} takes no keyword arguments", at)
            elif isinstance(f, ast.Name) and isinstance(getattr(builtins, f.id, None), type) and issubclass(getattr(builtins, f.id), BaseException):
                ok = f.id in ("NotImplementedError", "AssertionError") or caught_here(fn, n, f.id) or f.id == "ValueError" and q.endswith("get_definition")
                ck.oblige(ok, "belongs", f"{q} raise {name}", f"{name} is raised and not caught there; library errors derive from {ROOT}", at)


def hierarchy(ck):
    p = ck.p
    for c, bases in BASES.items():
        v = p.classes.get(c)
        if not ck.oblige(isinstance(v, Cls), "documented-class", c, f"the documented exception {c} does not exist"):
            continue
        for b in bases:
            ck.oblige(p.classes.get(b) is not None and p.issub(v, p.cls(b)), "documented-base", c, f"{c} is not caught as {b}")
        ck.oblige(p.issub(v, Ext("builtins.Exception")), "documented-base", c, f"{c} is not an Exception")
    for a, b in APART:
        if isinstance(p.classes.get(a), Cls) and isinstance(p.classes.get(b), Cls):
            ck.oblige(not p.issub(p.cls(a), p.cls(b)) and not p.issub(p.cls(b), p.cls(a)), "told-apart", a, f"{a} and {b} are not distinct")
    for n, v in sorted(p.classes.items()):
        if isinstance(v, Cls) and p.issub(v, Ext("builtins.Exception")) and v.module.path.endswith("exceptions.py"):
            ck.oblige(p.issub(v, p.cls(ROOT)), "documented-base", n, f"{n} is not caught as {ROOT}")


# ---- the place of the error -------------------------------------------------

def lmods():
    an = module("an", S("import", "ietf-yang-metadata", S("prefix", "md")), S("annotation", "note", S("type", "uint8"), pref="md"))
    ref = S("type", "leafref", S("path", "/m:c/m:a"))
    m = module("m", S("identity", "b"), S("identity", "d", S("base", "b")),
               S("container", "c", leaf("a"), leaf("n", "uint8"), S("leaf-list", "ll", S("type", "uint8"), S("max-elements", "4")),
                 S("list", "l", S("key", "k j"), S("unique", "u"), S("max-elements", "3"), leaf("k"), leaf("j", "uint8"), leaf("u"), leaf("v", "uint8"), leaf("w", "string", S("must", "../k = 'a'", S("error-message", "wrong w"), S("error-app-tag", "w-tag"))),
                   S("container", "ic", S("presence", "x"), leaf("z", "uint8"), leaf("y", "string", S("mandatory", "true"))),
                   S("list", "n", S("key", "nk"), S("min-elements", "2"), leaf("nk"), leaf("nv", "uint8"))),
                 S("list", "kl", S("config", "false"), leaf("u", "uint8"), S("leaf-list", "kll", S("type", "uint8"))),
                 S("container", "d", S("must", "not(../a = 'bad')"), leaf("r", ref), S("leaf-list", "rl", ref)),
                 S("choice", "ch", leaf("c1"), S("case", "c2", leaf("c2a"), leaf("c2b", "string", S("mandatory", "true"))))),
               S("container", "min", S("presence", "x"), S("leaf-list", "ml", S("min-elements", "2"), S("type", "uint8"))),
               S("rpc", "op", S("input", leaf("i", "uint8"))))
    o = module("o", S("import", "m", S("prefix", "m")), S("augment", "/m:c", S("container", "oc", leaf("oa", "uint8"))), S("augment", "/m:c/m:l", leaf("ol", "uint8")))
    return [m, o, an, module("ietf-yang-metadata", prefix="md")]


def entry(**kw):
    return dict({"k": "a", "j": 1}, **kw)


N2 = [{"nk": "x"}, {"nk": "y"}]
# raw document, class, names and entries on the way (an entry: (position, keys))
RAW = [([], "RawTypeError", []), ({"m:x": 1}, "RawMemberError", ["m:x"]), ({"x": 1}, "RawMemberError", ["x"]), ({"m:c": 1}, "RawTypeError", ["m:c"]), ({"m:c": {"x": 1}}, "RawMemberError", ["m:c", "x"]), ({"m:c": {"a": 1}}, "RawTypeError", ["m:c", "a"]),
       ({"m:c": {"n": "x"}}, "RawTypeError", ["m:c", "n"]), ({"m:c": {"ll": 3}}, "RawTypeError", ["m:c", "ll"]), ({"m:c": {"ll": [1, "x"]}}, "RawTypeError", ["m:c", "ll", (1, ())]), ({"m:c": {"ll": [1, 2, None]}}, "RawTypeError", ["m:c", "ll", (2, ())]),
       ({"m:c": {"l": {}}}, "RawTypeError", ["m:c", "l"]), ({"m:c": {"l": [3]}}, "RawTypeError", ["m:c", "l", (0, ())]), ({"m:c": {"l": [entry(), 3]}}, "RawTypeError", ["m:c", "l", (1, ())]), ({"m:c": {"l": [entry(x=1)]}}, "RawMemberError", ["m:c", "l", (0, "a1"), "x"]),
       ({"m:c": {"l": [entry(), entry(k="b", v="x")]}}, "RawTypeError", ["m:c", "l", (1, "b1"), "v"]), ({"m:c": {"l": [entry(), entry(k="b", ic={"z": "x"})]}}, "RawTypeError", ["m:c", "l", (1, "b1"), "ic", "z"]),
       ({"m:c": {"l": [entry(), entry(k="b", n=[{"nk": "x"}, {"nk": "y", "nv": "q"}])]}}, "RawTypeError", ["m:c", "l", (1, "b1"), "n", (1, "y"), "nv"]), ({"m:c": {"l": [entry(k="b", n=[{"nk": "x"}, {"nk": "y", "q": 1}])]}}, "RawMemberError", ["m:c", "l", (0, "b1"), "n", (1, "y"), "q"]),
       ({"m:c": {"l": [entry(), entry(k="c", **{"o:ol": "x"})]}}, "RawTypeError", ["m:c", "l", (1, "c1"), "o:ol"]), ({"m:c": {"l": [entry(ol=1)]}}, "RawMemberError", ["m:c", "l", (0, "a1"), "ol"]), ({"m:c": {"o:oc": {"oa": "x"}}}, "RawTypeError", ["m:c", "o:oc", "oa"]),
       ({"m:c": {"o:oc": 1}}, "RawTypeError", ["m:c", "o:oc"]), ({"m:c": {"kl": [{"u": 1}, {"u": "x"}]}}, "RawTypeError", ["m:c", "kl", (1, ()), "u"]), ({"m:c": {"kl": [{"kll": [1]}, {"kll": [3, 1, "x"]}]}}, "RawTypeError", ["m:c", "kl", (1, ()), "kll", (2, ())]),
       ({"m:c": {"d": {"q": 1}}}, "RawMemberError", ["m:c", "d", "q"]), ({"m:c": {"ch": 1}}, "RawMemberError", ["m:c", "ch"]), ({"m:op": 3}, "RawTypeError", ["m:op"]),
       ({"m:c": {"a": "x", "@b": {}}}, "MissingAnnotationTarget", ["m:c"]), ({"m:c": {"a": "x", "@a": {"an:q": 1}}}, "UndefinedAnnotation", ["m:c", "a"]), ({"m:c": {"a": "x", "@a": {"an:note": 999}}}, "AnnotationTypeError", ["m:c", "a"]), ({"m:c": {"a": "x", "@a": 3}}, "RawTypeError", ["m:c", "a"]),
       ({"m:c": {"l": [entry(), entry(k="b", **{"@": {"an:q": 1}})]}}, "UndefinedAnnotation", ["m:c", "l", (1, "b1")])]
RAW += [({"m:c": {"ll": list(range(i)) + ["x"] + [9] * a}}, "RawTypeError", ["m:c", "ll", (i, ())]) for i in range(8) for a in (0, 2)]
RAW += [({"m:c": {"l": [entry(j=n) for n in range(i)] + [entry(k="z", v="x")] + [entry(k="y")] * a}}, "RawTypeError", ["m:c", "l", (i, "z1"), "v"]) for i in range(6) for a in (0, 1)]
RAW += [({"m:c": {"kl": [{"u": 1}] * i + [{"kll": [1] * j + ["x"]}]}}, "RawTypeError", ["m:c", "kl", (i, ()), "kll", (j, ())]) for i in range(4) for j in range(4)]
RAW += [({"m:c": {"l": [entry()] * i + [entry(n=[{"nk": "x"}] * j + [{"nk": "y", "nv": "q"}])]}}, "RawTypeError", ["m:c", "l", (i, "a1"), "n", (j, "y"), "nv"]) for i in range(4) for j in range(4)]
# raw document, class, tag, path of the instance blamed (positions of entries)
VALID = [({"m:c": {"n": 999}}, None, None, None), ({"m:c": {"l": [entry(n=N2, ic={})]}}, "SchemaError", "missing-data", ["m:c", "l", 0, "ic"]), ({"m:c": {"l": [entry(n=N2), entry(k="b", n=N2, ic={"z": 1})]}}, "SchemaError", "missing-data", ["m:c", "l", 1, "ic"]),
         ({"m:c": {"c2a": "x"}}, "SchemaError", "missing-data", ["m:c"]), ({"m:c": {"c2a": "x", "c2b": "y", "c1": "z"}}, "SchemaError", "member-not-allowed", ["m:c"]), ({"m:c": {"l": [entry(n=N2[:1])]}}, "SemanticError", "too-few-elements", ["m:c", "l", 0, "n"]),
         ({"m:min": {"ml": [1]}}, "SemanticError", "too-few-elements", ["m:min", "ml"]), ({"m:c": {"ll": [1, 2, 3, 4, 5]}}, "SemanticError", "too-many-elements", ["m:c", "ll"]), ({"m:c": {"l": [entry(k=str(i), n=N2) for i in range(4)]}}, "SemanticError", "too-many-elements", ["m:c", "l"]),
         ({"m:c": {"ll": [1, 2, 1]}}, "SemanticError", "repeated-leaf-list-value", ["m:c", "ll"]), ({"m:c": {"l": [entry(n=N2), entry(n=N2)]}}, "SemanticError", "non-unique-key", ["m:c", "l"]), ({"m:c": {"l": [entry(n=N2), entry(k="b", n=N2 + N2[1:])]}}, "SemanticError", "non-unique-key", ["m:c", "l", 1, "n"]),
         ({"m:c": {"l": [entry(n=N2, u="q"), entry(k="b", n=N2, u="q")]}}, "SemanticError", "data-not-unique", ["m:c", "l"]), ({"m:c": {"l": [entry(n=N2), {"k": "b", "n": N2}]}}, "SchemaError", "list-key-missing", ["m:c", "l", 1]),
         ({"m:c": {"l": [entry(n=N2, w="x"), entry(k="b", n=N2, w="x")]}}, "SemanticError", "w-tag", ["m:c", "l", 1, "w"]), ({"m:c": {"a": "bad", "d": {}}}, "SemanticError", "must-violation", ["m:c", "d"]), ({"m:c": {"a": "x", "d": {"r": "y"}}}, "SemanticError", "instance-required", ["m:c", "d", "r"]),
         ({"m:c": {"a": "x", "d": {"rl": ["x", "y"]}}}, "SemanticError", "instance-required", ["m:c", "d", "rl", 1])]
VALID += [({"m:c": {"l": [entry(k=str(n), n=N2) for n in range(i)] + [entry(k="z", n=N2, w="x")] + [entry(k="y", n=N2)] * (i < 2)}}, "SemanticError", "w-tag", ["m:c", "l", i, "w"]) for i in range(3)]
VALID += [({"m:c": {"a": "x", "d": {"rl": ["x"] * i + ["y"]}}}, "SemanticError", "instance-required", ["m:c", "d", "rl", i]) for i in range(2)]
VALID += [({"m:c": {"l": [entry(k=str(n), n=N2) for n in range(i)] + [entry(k="z", n=N2, ic={})]}}, "SchemaError", "missing-data", ["m:c", "l", i, "ic"]) for i in range(3)]


def located(ck):
    """The error about a document names the place of its only defect."""
    w = world(ck, "c26", lambda p: World(p, lmods()))
    from .c11 import L
    from .c28 import plain
    from .c12 import doc

    def fits(path, want):
        segs = path.split("/")
        exp = [""]
        for s in want:
            if isinstance(s, tuple):
                alts = {str(s[0])}
                exp[-1] = [exp[-1] + "=" + ",".join(s[1])] if isinstance(exp[-1], str) else exp[-1]
                exp.append(alts)
            else:
                exp.append(s)

        def match(i, j):
            if j == len(exp):
                return i == len(segs)
            e = exp[j]
            if i < len(segs) and isinstance(e, list):      # list: /l/0 or /l=keys
                return segs[i] == e[0].split("=")[0] and match(i + 1, j + 1) or segs[i] in (e[0], e[0].rstrip("=") + "=") and j + 1 < len(exp) and match(i + 1, j + 2)
            return i < len(segs) and (segs[i] in e if isinstance(e, set) else segs[i] == e) and match(i + 1, j + 1)
        return match(0, 0)

    def t(x):
        for d, cls, want in RAW:
            r = x.attempt(lambda: x.call(x.sc.dm, "from_raw", L(d)))
            if not x.expect(r == ("raise", cls), "located", "InternalNode.from_raw", f"decoding {d} gives {r[1]!r} instead of {cls}", x.last.loc if r[0] == "raise" else None):
                continue
            p = plain(x, x.attr(x.last.exc, "path"))
            x.expect(isinstance(p, str) and fits(p, want), "located", f"{cls}.path", f"the error for {d} names {p!r}, expected {want}", x.last.loc)
    ck.scenario("located/raw", t, w, Config(steps=10**7, rec=120, depth=400))

    def v(x):
        for d, cls, tag, want in VALID:
            if cls is None:
                continue
            r = x.attempt(lambda: x.call(x.call(x.sc.dm, "from_raw", L(d)), "validate"))
            if not x.expect(r == ("raise", cls), "located", "InstanceNode.validate", f"validating {d} gives {r[1]!r} instead of {cls}", x.last.loc if r[0] == "raise" else None):
                continue
            e = x.last
            got = [q if isinstance(q, int) else q for q in plain(x, x.attr(x.attr(e.exc, "instance"), "path"))]
            # an array may be blamed through one of its entries
            ok = got == want or got[:-1] == want and isinstance(got[-1], int) or want[:-1] == got and isinstance(want[-1], int)
            x.expect(ok, "located", f"{cls}.instance", f"the error for {d} blames {got}, expected {want}", e.loc)
            g = plain(x, x.attr(e.exc, "tag"))
            x.expect(isinstance(g, str) and (g == tag or g.startswith(tag) or g.endswith(" " + tag)), "located", f"{cls}.tag", f"the error for {d} is tagged {g!r}, expected {tag}", e.loc)
    ck.scenario("located/valid", v, w, Config(steps=10**7, rec=120, depth=400))

    def xml(x):
        for d, cls, want in RAW:
            if not isinstance(d, dict) or "@" in str(d) or "x" in d or "ch" in str(want) or "ol" in want or not (cls == "RawMemberError" or cls == "RawTypeError" and any(f"{q!r}: 'x'" in str(d) or f"{q!r}: 'q'" in str(d) or "1, 'x']" in str(d) for q in want[-1:])):
                continue
            r = x.attempt(lambda: x.call(x.sc.dm, "from_xml", doc(d).build(x.I)))
            if not x.expect(r == ("raise", cls), "located", "InternalNode.from_xml", f"decoding {doc(d)} gives {r[1]!r} instead of {cls}", x.last.loc if r[0] == "raise" else None):
                continue
            p = plain(x, x.attr(x.last.exc, "path"))
            x.expect(isinstance(p, str) and fits(p, want), "located", f"{cls}.path in XML", f"the error for {doc(d)} names {p!r}, expected {want}", x.last.loc)
    ck.scenario("located/xml", xml, w, Config(steps=10**7, rec=120, depth=400))


# ---- errors provoked one by one ------------------------------------------------

XPATHS = [("count(1)", "XPathTypeError"), ("sum('x')", "XPathTypeError"), ("deref(1)", "XPathTypeError"), ("name(1)", "XPathTypeError"), ("local-name('x')", "XPathTypeError"), ("enum-value(true())", "XPathTypeError"), ("bit-is-set(1, 'x')", "XPathTypeError"),
          ("derived-from('x', 'i1')", "XPathTypeError"), ("1 | s1", "XPathTypeError"), ("s1 | 'x'", "XPathTypeError"), ("(1)[1]", "XPathTypeError"), ("('x')/s1", "XPathTypeError"), ("re-match(s1, '[')", "InvalidArgument"), ("foo(1)", "InvalidXPath"),
          ("id('x')", "NotSupported"), ("lang('x')", "NotSupported"), ("preceding::s1", "NotSupported"), ("namespace::s1", "NotSupported"), ("attribute::s1", "NotSupported"), ("sideways::s1", "InvalidXPath"), ("comment()", "NotSupported"), ("text()", "NotSupported"),
          ("s1 ! s2", "InvalidXPath"), ("s1 =", None), ("concat(1)", "InvalidXPath"), ("q:s1", "UnknownPrefix"), ("s1[", None), ("s1 =\n\n q:s2", "UnknownPrefix"), ("s1 or\n\n foo(2)", "InvalidXPath"), ("\nid('x')", "NotSupported"), ("s1 =\n?", "InvalidXPath"), ("\n?", "InvalidXPath"), ("\n\n?", "InvalidXPath"), ("s1 [\n\n s2 = ?]", "InvalidXPath"), ("(s1\n\n", None), ("s1[\n", None), ("\nq ::a", None), ("\ns1\n/\n?", None), ("self::nodes()", None)]


def models():
    """Invalid models, the exception that tells it."""
    m = lambda *s: [module("m", *s)]
    cc = S("container", "c", leaf("a"), S("list", "l", S("key", "k"), leaf("k"), leaf("u")))
    imp = lambda n, *s: S("import", n, S("prefix", n), *s)
    aug = lambda path: m(cc, S("augment", path, leaf("z")))
    return [("unparsable default of an integer", m(leaf("a", "uint8", S("default", "x"))), None, "InvalidArgument"), ("unparsable default of a boolean", m(leaf("a", "boolean", S("default", "maybe"))), None, "InvalidArgument"),
            ("unparsable default of a union", m(S("leaf", "a", S("type", "union", S("type", "uint8"), S("type", "boolean")), S("default", "x"))), None, "InvalidArgument"), ("default of an unknown module's identity", m(S("identity", "b"), S("leaf", "a", S("type", "identityref", S("base", "b")), S("default", "q:b"))), None, ("UnknownPrefix", "InvalidArgument")),
            ("range that is no range", m(S("leaf", "a", S("type", "uint8", S("range", "1..x")))), None, "InvalidArgument"), ("broken pattern", m(S("leaf", "a", S("type", "string", S("pattern", "[")))), None, "InvalidArgument"),
            ("leafref to a container", m(cc, S("leaf", "r", S("type", "leafref", S("path", "/m:c")))), None, "InvalidLeafrefPath"), ("leafref to nothing", m(cc, S("leaf", "r", S("type", "leafref", S("path", "/m:c/m:zz")))), None, "InvalidLeafrefPath"), ("leafref without path", m(S("leaf", "r", S("type", "leafref"))), None, "StatementNotFound"),
            ("unknown type", m(leaf("a", "nix")), None, "DefinitionNotFound"), ("unknown grouping", m(S("uses", "nix")), None, "DefinitionNotFound"), ("unknown prefix", m(leaf("a", "q:nix")), None, "UnknownPrefix"), ("leaf without type", m(S("leaf", "a")), None, "StatementNotFound"),
            ("augment with an unknown prefix", aug("/q:c"), None, "UnknownPrefix"), ("unregistered import", m(imp("nix")), None, "ModuleNotRegistered"), ("unregistered import by revision", m(imp("nix", S("revision-date", "2020-01-01"))), None, "ModuleNotRegistered"),
            ("import without prefix", m(S("import", "m")), None, "StatementNotFound"), ("circular imports", [module("m", imp("n")), module("n", imp("m"))], None, "CyclicImports"), ("circular imports beside others", [module("m", imp("n")), module("n", imp("m")), module("o")], None, "CyclicImports"),
            ("two implemented revisions", [module("m", rev="2020-01-01"), module("m", rev="2021-01-01")], None, "MultipleImplementedRevisions"), ("feature prerequisite", m(S("feature", "f", S("if-feature", "g")), S("feature", "g")), {"m": {"feature": ["f"]}}, "FeaturePrerequisiteError"),
            ("broken if-feature", m(leaf("a", "string", S("if-feature", "f or")), S("feature", "f")), None, None), ("if-feature with an unknown prefix", m(leaf("a", "string", S("if-feature", "q:f"))), None, "UnknownPrefix"), ("list key that does not exist", m(S("list", "l", S("key", "q"), leaf("k"))), None, "NonexistentSchemaNode"),
            ("library entry without type of conformance", m(cc), {"m": {"conformance-type": DROP}}, "BadYangLibraryData"), ("library entry without name", m(cc), {"m": {"name": DROP}}, "BadYangLibraryData"), ("library entry without revision", m(cc), {"m": {"revision": DROP}}, "BadYangLibraryData"),
            ("module that is not there", m(cc), {"m": {"name": "nowhere"}}, "ModuleNotFound"), ("submodule that is not there", m(cc), {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}}, "ModuleNotFound"),
            ("submodule without belongs-to", (m(cc), [S("submodule", "s", S("revision", "2020-01-01"))]), {"m": {"submodule": [{"name": "s", "revision": "2020-01-01"}]}}, "StatementNotFound"),
            ("broken must", m(leaf("a", "string", S("must", "count("))), None, None), ("broken unique", m(S("list", "l", S("key", "k"), leaf("k"), S("unique", "k/ /"))), None, None), ("max-elements that is no number", m(S("leaf-list", "l", S("type", "string"), S("max-elements", "x"))), None, None),
            ("min-elements that is no number", m(S("leaf-list", "l", S("type", "string"), S("min-elements", "x"))), None, None), ("unknown base of an identity", m(S("identity", "a", S("base", "q:nix"))), None, "UnknownPrefix")] + [
            (f"library data with {w}", m(cc), f, "BadYangLibraryData") for w, f in libraries()]


MS = "ietf-yang-library:modules-state"


def libraries():
    """YANG library data of a wrong form: (what, how it comes from a good one)."""
    def state(**kw):
        return lambda d: {MS: {**d[MS], **kw}}

    def one(**kw):
        return lambda d: {MS: {**d[MS], "module": [{**d[MS]["module"][0], **kw}]}}
    return [("an array on top", lambda d: [d]), ("a string on top", lambda d: "modules"), ("null on top", lambda d: None), ("a number on top", lambda d: 1), ("nothing inside", lambda d: {}), ("another root", lambda d: {"ietf-yang-library:yang-library": {}}),
            ("an array of states", lambda d: {MS: [d[MS]]}), ("a null state", lambda d: {MS: None}), ("no modules", lambda d: {MS: {"module-set-id": "x"}}), ("null modules", state(module=None)), ("a module that is a string", state(module=["m"])), ("a null module", state(module=[None])),
            ("a module that is a list", state(module=[[]])), ("a number of modules", state(module=3)), ("no module set id", lambda d: {MS: {k: v for k, v in d[MS].items() if k != "module-set-id"}}), ("a null set id", state(**{"module-set-id": None})),
            ("null features", one(feature=None)), ("null submodules", one(submodule=None)), ("a submodule that is a string", one(submodule=["s"])), ("a submodule without name", one(submodule=[{"revision": "2020-01-01"}])), ("a submodule without revision", one(submodule=[{"name": "s"}]))]


DROP = "<drop>"


def provoked(ck):
    from .c11 import L
    from .xp import xworld, root, sctx, evaluate
    from .c19 import lazily
    from ..world import World
    good = world(ck, "c26", lambda p: World(p, lmods()))
    for what, mods, lib, cls in models():
        def t(x, what=what, mods=mods, lib=lib, cls=cls):
            mods, subs = mods if isinstance(mods, tuple) else (mods, [])
            w = World(x.p, mods, None if callable(lib) else lib, subs)
            full = w.lib
            if callable(lib):
                full = lambda o=w.lib: lib(o())

            def cut():
                d = full()
                if callable(lib):
                    return d
                d["ietf-yang-library:modules-state"]["module"] = [{k: v for k, v in e.items() if v != DROP} for e in d["ietf-yang-library:modules-state"]["module"]]
                return d
            w.lib = cut
            try:
                w.prepare()
                got = "no error"
            except ModelRejected as e:
                got = getattr(e.exc.cls, "name", "?")
                x.expect(isinstance(e.exc.cls, Cls) and x.p.issub(e.exc.cls, x.p.cls(ROOT)), "provoked", "DataModel", f"{what}: {got}, which is not a {ROOT}", e.loc)
            x.expect(cls is None and got != "no error" or cls is not None and got in (cls if isinstance(cls, tuple) else (cls,)), "provoked", what, f"{what}: {got} instead of {cls}")
        lazily(ck, "model/" + what.replace(" ", "-"), t, good)
    xw = xworld(ck)

    def xp(x):
        c, ctx = x.sc.member(root(x), "m:c"), sctx(x)
        for text, cls in XPATHS:
            r = evaluate(x, text, c, ctx)
            ok = isinstance(x.last.exc.cls, Cls) and x.p.issub(x.last.exc.cls, x.p.cls(ROOT)) if r[0] == "raise" else False
            x.expect(ok and (cls is None or r[1] == cls), "provoked", text, f"{text!r} gives {r[1]!r}, expected {cls or 'an error'}", x.last.loc if r[0] == "raise" else None)
    ck.scenario("provoked/xpath", xp, xw, Config(steps=10**7, rec=120, depth=400))

    def api(x):
        d = L({"m:c": {"a": "x", "ll": [1, 2], "l": [entry(n=N2)], "kl": [{"u": 1}], "d": {}}, "o:oc": 1} if False else {"m:c": {"a": "x", "ll": [1, 2], "l": [entry(n=N2)], "kl": [{"u": 1}], "d": {}}})
        r = x.call(x.sc.dm, "from_raw", d)
        c = x.sc.member(r, "m:c")
        go = lambda n, *p: x.sc.member(n, *p)
        ll, l, a = go(c, "ll"), go(c, "l"), go(c, "a")
        iid = lambda t: x.call(x.sc.dm, "parse_instance_id", K(t))
        rid = lambda t: x.call(x.sc.dm, "parse_resource_id", K(t))
        V = lambda v: L(v)
        for what, fn, cls in [
                ("up of the root", lambda: x.call(r, "up"), "NonexistentInstance"), ("absent member", lambda: go(c, "n"), "NonexistentInstance"), ("undefined member", lambda: go(c, "zz"), ("NonexistentInstance", "NonexistentSchemaNode")), ("member of an array", lambda: go(l, "k"), ("NonexistentInstance", "InstanceValueError")), ("item of a scalar", lambda: go(a, 1), "InstanceValueError"),
                ("member of a scalar", lambda: go(a, "x"), "InstanceValueError"), ("entry of an object", lambda: go(c, 1), ("InstanceValueError", "NonexistentInstance", "NonexistentSchemaNode")), ("absent entry", lambda: go(ll, 7), "NonexistentInstance"), ("absent sibling", lambda: x.call(a, "sibling", K("n")), "NonexistentInstance"),
                ("undefined sibling", lambda: x.call(a, "sibling", K("zz")), "NonexistentSchemaNode"), ("previous of the first", lambda: x.call(go(ll, 0), "previous"), "NonexistentInstance"), ("next of the last", lambda: x.call(go(ll, 1), "next"), "NonexistentInstance"),
                ("look-up in a leaf-list", lambda: x.call(a, "look_up", k=K("a")), "InstanceValueError"), ("look-up of nothing", lambda: x.call(l, "look_up", k=K("q"), j=K(1)), "NonexistentInstance"), ("put of an undefined member", lambda: x.call(c, "put_member", K("zz"), V(1)), "NonexistentSchemaNode"),
                ("put in a scalar", lambda: x.call(a, "put_member", K("zz"), V(1)), "InstanceValueError"), ("deletion in a scalar", lambda: x.call(a, "delete_item", K("zz")), "InstanceValueError"), ("deletion of an absent member", lambda: x.call(c, "delete_item", K("n")), "NonexistentInstance"), ("deletion of an absent entry", lambda: x.call(ll, "delete_item", K(9)), "NonexistentInstance"),
                ("raw update of a wrong type", lambda: x.call(a, "update", V(3), K(True)), "RawTypeError"), ("unknown member by identifier", lambda: x.call(r, "goto", iid("/m:c/m:zz")), ("NonexistentInstance", "NonexistentSchemaNode")), ("route to an absent node", lambda: x.call(r, "goto", iid("/m:c/n")), "NonexistentInstance"), ("route to an absent entry", lambda: x.call(r, "goto", iid("/m:c/l[k='q'][j='1']")), "NonexistentInstance"),
                ("position zero", lambda: iid("/m:c/ll[0]"), "UnexpectedInput"), ("broken identifier", lambda: iid("/m:c/l[k=]"), None), ("unterminated identifier", lambda: iid("/m:c/l[k='x"), "EndOfInput"), ("undefined node in a resource identifier", lambda: rid("/m:c/zz"), "NonexistentSchemaNode"), ("keys of a container", lambda: rid("/m:c=3"), None),
                ("wrong number of keys", lambda: rid("/m:c/l=3"), None), ("key value of a wrong type", lambda: x.call(r, "goto", rid("/m:c/l=x,y")), "InvalidKeyValue"), ("entry value of a wrong type", lambda: x.call(r, "goto", rid("/m:c/ll=x")), "InvalidKeyValue"), ("action", lambda: x.call(r, "goto", rid("/m:op")), "NonDataNode"),
                ("resource of an absent entry", lambda: x.call(r, "goto", rid("/m:c/ll=9")), "NonexistentInstance"), ("undefined subschema", lambda: x.call(x.sc.dm, "from_raw", V({}), K("m:zz")), "NonexistentSchemaNode"), ("subschema of a container", lambda: x.call(x.sc.dm, "from_raw", V({}), K("m:c")), "BadSchemaNodeType"),
                ("subschema without module", lambda: x.call(x.sc.dm, "from_raw", V({}), K("c")), "InvalidArgument"), ("merge of a wrong type", lambda: x.call(c, "merge", V({"n": "x"}), K(True)), "RawTypeError")]:
            g = x.attempt(fn)
            ok = isinstance(x.last.exc.cls, Cls) and x.p.issub(x.last.exc.cls, x.p.cls(ROOT)) if g[0] == "raise" else False
            x.expect(ok and (cls is None or g[1] in (cls if isinstance(cls, tuple) else (cls,))), "provoked", what, f"{what} gives {g[1]!r}, expected {cls or 'an error'}", x.last.loc if g[0] == "raise" else None)
    ck.scenario("provoked/api", api, good, Config(steps=10**7, rec=120, depth=400))


def reuse(ck):
    """Error scenarios of other properties, judged for their exceptions only."""
    from . import c03, c08, c11, c12, c14, c16, c18, c23, c28, c31
    ck.only = set()
    for f in (c11.holes, c11.members, c11.texts, c11.edits, c12.rejects, c12.parser, c28.checked, c23.invalid, c23.rid_texts, c23.iid_texts, c23.evaluated, c03.arrays, c03.objects, c03.lookups, c08.malformed, c08.badpattern, c16.statements, c18.malformed, c18.prerequisites, c14.arities, c14.nodes):
        f(ck)
    ck.only = None


def run(ck):
    ck.floor = 50000
    hierarchy(ck)
    sites(ck)
    from ..world import World
    ck.observer, World.rejections = judge, []
    located(ck)
    provoked(ck)
    reuse(ck)
