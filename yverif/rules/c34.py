"""C34: no operation refers to an undefined name, attribute or argument.

Every name, local variable, attribute and call of the source is an obligation,
decided on the syntax tree, the scopes and the class hierarchy."""
import ast, importlib
from .common import *
from .xp import parse, xworld
from .c11 import L
from .schema import path_of
from ..world import leaf as sleaf
from .. import names as N
from .. import extern


def scopes(ck):
    bad, n = N.undefined_names(ck.p.source)
    for m, scope, name, line in bad:
        ck.oblige(False, "name-defined", f"{m}.{scope}", f"name {name} is not defined", f"{ck.p.modules[m].path}:{line} ({scope})")
    ck.count("name-defined", n - len(bad))
    reads = 0
    for m, q, node, c in ck.p.source.functions():
        f = N.Flow(node)
        found = f.run()
        reads += f.loads - len(found)
        for v, e in found.items():
            ck.oblige(False, "assigned-before-use", f"{m}.{q}", f"local variable {v} may be read before it is assigned", f"{ck.p.modules[m].path}:{e.lineno} ({q})")
    ck.count("assigned-before-use", reads)


def guards(fn):
    """Attribute names probed for, and whether a node is inside a handler of AttributeError."""
    probed, spans = set(), []
    for n in N.walk_own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            probed.add(n.args[1].value)
        if isinstance(n, ast.Try) and any(h.type is None or any(t in ast.unparse(h.type) for t in ("AttributeError", "Exception", "NotImplementedError")) and "AttributeError" in ast.unparse(h.type) or h.type is not None and ast.unparse(h.type) in ("Exception", "BaseException") for h in n.handlers):
            spans.append((n.lineno, n.body[-1].end_lineno))
    return probed, spans


def stdlib(name):
    """Does a dotted name of an external module exist?  None: cannot tell."""
    parts = name.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        for k in parts[i:]:
            if not hasattr(o, k):
                return False
            o = getattr(o, k)
        return True
    return None


def members(ck):
    mem = N.Members(ck.p)
    p = ck.p
    count = {"attribute-exists": 0, "call-fits": 0, "library-name-exists": 0}
    runs = {}                           # (function node) -> classes on whose objects it may run
    for c in mem.classes.values():
        for n, v in c.ns.items():
            f = N.unwrap(v)
            fs = [f] if isinstance(f, Fn) else [x for x in (f.getter, f.setter) if isinstance(x, Fn)] if isinstance(f, Prop) else []
            for x in fs:
                ks = [k for k in mem.leaves(c) if (p.find(k, n) or (None, None))[1] is v]
                if not ks:              # overridden everywhere: may still be called by super()
                    ks = [k for k in mem.leaves(c)]
                    runs[x.node] = (c, ks, False)
                else:
                    runs[x.node] = (c, ks, True)

    def fits(f, call, skip, want=None):
        if isinstance(f, Cls):
            r = p.find(f, "__init__")
            if r is None or not isinstance(N.unwrap(r[1]), Fn):
                return None
            return N.bind_call(N.unwrap(r[1]).node, call, 1)
        if isinstance(f, Fn) and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return N.bind_call(f.node, call, skip)
        return None

    called = set(N.BUILTIN_ATTRS)       # names of attributes of objects other than self
    refs = {}                           # function -> names of its own attributes it refers to
    for m, q, node, cname in p.source.functions():
        me = mem.self_name(node) if cname else None
        mine = refs.setdefault(node, set())
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute):
                b = n.value
                if isinstance(b, ast.Name) and b.id == me or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                    mine.add(n.attr)
                else:
                    called.add(n.attr)
    reached = {}

    def reach(k):
        """Names of the methods that can run on an object of class k."""
        if k not in reached:
            done = set()
            todo = [n for b in k.mro if isinstance(b, Cls) for n in b.ns if not n.startswith("_") or n.startswith("__") or n in called]
            while todo:
                n = todo.pop()
                if n in done:
                    continue
                done.add(n)
                g = p.find(k, n)
                defs = [g[1]] if g else []
                defs += [b.ns[n] for b in k.mro if isinstance(b, Cls) and n in b.ns and b.ns[n] not in defs and n in supers]
                for d in defs:
                    u = N.unwrap(d)
                    for f in [u] if isinstance(u, Fn) else [u.getter, u.setter] if isinstance(u, Prop) else []:
                        if isinstance(f, Fn):
                            todo.extend(refs.get(f.node, ()))
            reached[k] = done
        return reached[k]

    supers = {n.attr for t in p.source.trees.values() for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super"}
    mem.foreign = set()                 # attributes that may hold objects from outside
    for _ in range(2):
        for m, q, node, cname in p.source.functions():
            T = N.Types(mem, p.modules[m], mem.classes.get((m, cname)) if cname else None, node)
            for n in N.walk_own(node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and external(T, n.value):
                            mem.foreign.add(t.attr)
    byname = {}
    for c in mem.classes.values():
        for n, v in c.ns.items():
            byname.setdefault(n, []).append((c, v))

    for m, q, node, cname in p.source.functions():
        mod = p.modules[m]
        cls = mem.classes.get((m, cname)) if cname else None
        T = N.Types(mem, mod, cls, node)
        probed, spans = guards(node)
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        cmeth = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in node.decorator_list)
        stores = {id(n) for x in N.walk_own(node) for n in ([x.func] if isinstance(x, ast.Call) else [])}
        where_ = lambda n: f"{mod.path}:{n.lineno} ({q})"
        for n in N.walk_own(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                caught = n.attr in probed or any(a <= n.lineno <= b for a, b in spans)
                e = T.static(n)
                if isinstance(e, Ext):
                    count["library-name-exists"] += 1
                    if stdlib(e.name) is False and not caught:
                        ck.oblige(False, "library-name-exists", f"{m}.{q}", f"{e.name} does not exist", where_(n))
                    continue
                b = T.static(n.value)
                if isinstance(b, Mod):
                    count["attribute-exists"] += 1
                    if n.attr not in b.env and p.modules.get(b.name + "." + n.attr) is None:
                        ck.oblige(False, "attribute-exists", f"{m}.{q}", f"module {b.name} has no {n.attr}", where_(n))
                    continue
                if isinstance(b, Cls):
                    count["attribute-exists"] += 1
                    if not mem.has(b, n.attr) and not caught and not hasattr(type, n.attr):
                        ck.oblige(False, "attribute-exists", f"{m}.{q}", f"class {b.name} has no attribute {n.attr}", where_(n))
                    continue
                count["attribute-exists"] += 1
                if caught:
                    continue
                if n.attr not in mem.known and not external(T, n.value):
                    ck.oblige(False, "attribute-exists", f"{m}.{q}", f"nothing has an attribute {n.attr}", where_(n))
                    continue
                if isinstance(n.value, ast.Name) and n.value.id == T.me and cls is not None and not T.defs.get(T.me):
                    c, ks, strict = runs.get(node, (cls, mem.leaves(cls), False))
                    nar = T.narrowed.get(T.me)
                    lack = [k.name for k in ks if not mem.has(k, n.attr) and (not strict or node.name in reach(k))]
                    if lack and (strict and not nar or len(lack) == len(ks)):
                        ck.oblige(False, "attribute-exists", f"{m}.{q}", f"objects of {', '.join(lack[:4])} have no attribute {n.attr}", where_(n))
                    continue
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and cls is not None:
                    if not n.value.args and not any(after_super(mem, p, cls, k, n.attr) for k in mem.leaves(cls)):
                        ck.oblige(False, "attribute-exists", f"{m}.{q}", f"no base class of {cls.name} has {n.attr}", where_(n))
                    continue
                r = T.of(n.value)
                if r and not any(mem.somewhere(k, n.attr) for k in r):
                    ck.oblige(False, "attribute-exists", f"{m}.{q}", f"{' or '.join(sorted(k.name for k in r))} has no attribute {n.attr}", where_(n))
            elif isinstance(n, ast.Call):
                count["call-fits"] += 1
                f = n.func
                v = T.static(f)
                if isinstance(v, (Fn, Cls)):
                    why = fits(v, n, 0)
                    if why:
                        ck.oblige(False, "call-fits", f"{m}.{q}", f"{v.name if isinstance(v, Cls) else v.qual} cannot be called so: {why}", where_(n))
                    continue
                if not isinstance(f, ast.Attribute):
                    continue
                b = T.static(f.value)
                if isinstance(b, (Ext, Mod)):
                    continue
                if isinstance(b, Cls):
                    g = p.find(b, f.attr)
                    if g:
                        u = N.unwrap(g[1])
                        why = fits(u, n, 1 if isinstance(g[1], ClassM) else 0)
                        if why:
                            ck.oblige(False, "call-fits", f"{m}.{q}", f"{b.name}.{f.attr} cannot be called so: {why}", where_(n))
                    continue
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
                    if f.value.args:
                        continue
                    gs = [after_super(mem, p, cls, k, f.attr) for k in mem.leaves(cls)]
                    whys = [fits(N.unwrap(g), n, 0 if isinstance(g, Static) else 1) for g in gs if isinstance(g, V)]
                    if gs and len(whys) == len(gs) and whys and all(whys):
                        ck.oblige(False, "call-fits", f"{m}.{q}", f"super().{f.attr} cannot be called so: {whys[0]}", where_(n))
                    continue
                if isinstance(f.value, ast.Name) and f.value.id == T.me and cls is not None and not static and not T.narrowed.get(T.me):
                    c, ks, strict = runs.get(node, (cls, mem.leaves(cls), False))
                    whys = []
                    for k in ks:
                        g = p.find(k, f.attr)
                        if g is None:
                            whys.append(None)
                            continue
                        whys.append(fits(N.unwrap(g[1]), n, 0 if isinstance(g[1], Static) else 1))
                    if whys and all(whys):
                        ck.oblige(False, "call-fits", f"{m}.{q}", f"{cls.name}.{f.attr} cannot be called so: {whys[0]}", where_(n))
                    continue
                r = T.of(f.value)
                cands = []
                if r:
                    for c in r:
                        for k in [c] + p.subclasses(c, strict=True):
                            g = p.find(k, f.attr)
                            if g:
                                cands.append(g[1])
                elif f.attr in byname and f.attr not in N.BUILTIN_ATTRS and f.attr not in mem.stores:
                    cands = [g for _, g in byname[f.attr]]
                whys = [fits(N.unwrap(g), n, 0 if isinstance(g, Static) else 1) if isinstance(N.unwrap(g), Fn) else None for g in cands]
                if whys and all(whys):
                    ck.oblige(False, "call-fits", f"{m}.{q}", f"{f.attr} cannot be called so: {whys[0]}", where_(n))
    for k, v in count.items():
        ck.count(k, v)


def external(T, e, busy=()):
    """May an expression come from outside the package?"""
    while True:
        if isinstance(T.static(e), Ext):
            return True
        if isinstance(e, (ast.Call, ast.Attribute, ast.Subscript, ast.Starred, ast.Await)):
            e = e.func if isinstance(e, ast.Call) else e.value
        elif isinstance(e, ast.NamedExpr):
            e = e.value
        else:
            break
        if isinstance(e, ast.Attribute) and e.attr in T.mem.foreign:
            return True
    if isinstance(e, ast.IfExp):
        return external(T, e.body, busy) or external(T, e.orelse, busy)
    if isinstance(e, ast.BoolOp):
        return any(external(T, v, busy) for v in e.values)
    if not isinstance(e, ast.Name):
        return not isinstance(e, (ast.Constant, ast.List, ast.Dict, ast.Tuple, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.JoinedStr))
    if e.id == T.me and T.cls is not None:
        return T.mem.opaque(T.cls) or any(isinstance(b, Ext) and not b.name.startswith(("typing.", "abc.")) for b in T.cls.mro)
    if e.id in busy:
        return False
    a = T.ann.get(e.id)
    if a is not None:
        return ext_annotation(T, a)
    ds = T.defs.get(e.id, [])
    if e.id in T.params or not ds:
        return isinstance(T.static(e), V) is False
    return any(d is None or isinstance(d, tuple) or external(T, d, busy + (e.id,)) for d in ds)


def ext_annotation(T, a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return True
    for x in ast.walk(a):
        if isinstance(x, (ast.Name, ast.Attribute)):
            v = T.static(x)
            if isinstance(v, Ext) and not v.name.startswith("typing."):
                return True
    return False


def after_super(mem, p, cls, k, attr):
    """What super().attr of a method of cls gives on an object of class k."""
    mro = list(k.mro)
    i = mro.index(cls) if cls in mro else -1
    for b in mro[i + 1:]:
        if isinstance(b, Cls) and attr in b.ns:
            return b.ns[attr]
        if isinstance(b, Ext):
            e = extern.ext_class(b.name)
            if e is None or hasattr(e, attr):
                return True
    return hasattr(object, attr)


PRINTED = ["1 + 2 * 3 div 4 mod 5 - -6", "'a' = \"b\" or 1 != 2 and 3 <= 4", "a | b/c | //d", "/", ".", "..", "(a)[1][2]", "(a)[. = 'x']/b", "a[b = current()/../c]", "/m:c/a[1]", "ancestor-or-self::*", "descendant::m:a", "*",
           "bit-is-set(., 'p')", "boolean(a)", "ceiling(1.5)", "concat('a', b, 1)", "contains(a, 'b')", "count(a)", "current()", "deref(lr)", "derived-from(ir, 'm:base')", "derived-from-or-self(ir, 'm:base')", "enum-value(a)", "false()", "floor(1.5)",
           "last()", "local-name()", "local-name(a)", "name()", "name(a)", "namespace-uri()", "namespace-uri(a)", "normalize-space()", "normalize-space(a)", "not(a)", "number()", "number(a)", "position()", "re-match(a, 'b')", "round(1.5)",
           "starts-with(a, 'b')", "string()", "string(a)", "string-length()", "string-length(a)", "substring('abc', 2)", "substring('abc', 2, 1)", "substring-after('a=b', '=')", "substring-before('a=b', '=')", "sum(a)", "translate('abc', 'a', 'b')", "true()"]
BROKEN = ("AttributeError", "NameError", "UnboundLocalError", "TypeError")


def noargs(p, c):
    """Public methods of a class without required parameters, and its properties."""
    res = {}
    for k in reversed(c.mro):
        if not isinstance(k, Cls):
            continue
        for n, v in k.ns.items():
            if n.startswith("_"):
                continue
            if isinstance(v, Prop):
                res[n] = False
            elif isinstance(v, Fn) and isinstance(v.node, ast.FunctionDef):
                a = v.node.args
                pos = a.posonlyargs + a.args
                if len(pos) - len(a.defaults) <= 1 and all(d is not None for d in a.kw_defaults):
                    res[n] = True
                else:
                    res.pop(n, None)
            else:
                res.pop(n, None)
    return res


def exercise(x, o, what, skip=()):
    n = 0
    c = x.I.cls_of(o) if hasattr(x.I, "cls_of") else o.cls
    for name, call in sorted(noargs(x.p, c).items()):
        if name in skip:
            continue
        r = x.attempt(lambda: x.call(o, name)) if call else x.attempt(lambda: x.attr(o, name))
        x.expect(r[0] == "ok" or r[1] not in BROKEN, "operation-works", f"{c.name}.{name}", f"{name} of {what} raises {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None)
        n += 1
    return n


def sweep(ck):
    def printing(x):
        for t in PRINTED:
            r = x.attempt(lambda: parse(x, t)[0])
            x.expect(r[0] == "ok" or r[1] == "NotSupported", "operation-works", "parsing of expressions", f"parsing {t} raises {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None)
            if r[0] != "ok":
                continue
            e = r[1]
            for what, f in (("syntax tree", lambda: x.call(e, "syntax_tree")), ("text", lambda: x.I.str_(e))):
                r = x.attempt(f)
                x.expect(r[0] == "ok", "operation-works", f"{what} of expressions", f"the {what} of {t} raises {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None)
    ck.scenario("printing expressions", printing, xworld(ck))

    w = world(ck, "sweep", lambda p: World(p, [widened()]))

    def schema(x):
        todo = [x.attr(x.sc.dm, "schema")]
        while todo:
            o = todo.pop()
            exercise(x, o, f"the schema node {path_of(x, o)}", ("delete",))
            if "children" in o.fields:
                todo.extend(seq(x.I, x.attr(o, "children")))
    ck.scenario("schema nodes", schema, w)

    def instances(x):
        dm = x.sc.dm
        r = x.call(dm, "from_raw", L({"m:c": {"a": "x", "l": [{"k": "1", "v": "a"}, {"k": "2", "v": "b"}], "ll": ["x", "y"], "c1a": "q", "ir": "d1", "un": 3, "p": {"q": "r"}, "ad": {"z": [1, {"y": None}]}, "kl": [{"u": "1"}, {"u": "1"}]}}))
        g = lambda *p: [x.I.getitem(o, K(k)) for o in [p[0]] for k in [p[1]]][0]
        c = g(r, "m:c")
        nodes = [("the root", r), ("a container", c)]
        for k in ("a", "l", "ll", "c1a", "ir", "un", "p", "ad", "kl"):
            nodes.append((f"member {k}", g(c, k)))
        for k in ("l", "ll", "kl"):
            nodes += [(f"entry {i} of {k}", g(g(c, k), i)) for i in (0, 1)]
        nodes.append(("a key", g(g(g(c, "l"), 0), "k")))
        for what, o in nodes:
            exercise(x, o, what)
    ck.scenario("instance nodes", instances, w)

    def model(x):
        exercise(x, x.sc.dm, "the data model")
        for t in ("/", "/m:c", "/m:c/a", "/m:c/a/b", "/m:c/nil", "/m:op/i1", "/m:c/l/k", "/m:c/ad/x"):
            for f in ("get_schema_node", "get_data_node"):
                r = x.attempt(lambda: x.call(x.sc.dm, f, K(t)))
                x.expect(r[0] == "ok" or r[1] not in BROKEN, "operation-works", f"DataModel.{f}", f"{f}({t!r}) raises {r[1] if r[0] != 'ok' else ''}", x.last.loc if r[0] != "ok" else None)
    ck.scenario("data model", model, w)


def widened():
    kw, arg, subs, pref = full_module()
    extra = [S("container", "s", S("config", "false"), S("anyxml", "x"), S("leaf-list", "y", S("type", "empty")), S("choice", "z", S("anydata", "w"))),
             S("container", "t", S("action", "act", S("input", sleaf("in")), S("output", S("anydata", "out"))), S("notification", "nn", sleaf("nl")), S("anyxml", "ax", S("mandatory", "true")), sleaf("tl", "binary"), S("list", "tk", S("key", "e f"), sleaf("e"), sleaf("f")))]
    return (kw, arg, list(subs) + extra, pref)


def run(ck):
    scopes(ck)
    members(ck)
    sweep(ck)
    ck.floor = 12000
