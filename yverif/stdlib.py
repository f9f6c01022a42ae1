"""Models of further library functions: itertools, functools, operator, copy, contextlib, and the `match` statement."""
from __future__ import annotations
import ast
import itertools
from .values import *
from . import extern
from .extern import EXT

LONG = 5001


def it(f):
    def h(I, a, kw, node):
        r = f(I, a, kw, node)
        return Lst("iter", list(r))
    return h


def tup(*xs):
    return Lst("tuple", list(xs))


def known(v, d=None):
    if v is None:
        return d
    if isinstance(v, K):
        return v.val
    raise LookupError


def i_islice(I, a, kw, node):
    xs = a[0]
    b = [known(x) for x in a[1:]]
    if isinstance(xs, Lst) and xs.kind == "iter":
        start, stop, step = (0, b[0], 1) if len(b) == 1 else (b[0] or 0, b[1], (b[2] if len(b) > 2 else 1) or 1)
        end = len(xs.items) if stop is None else min(len(xs.items), xs.pos + stop)
        r = xs.items[xs.pos:end][start::step]
        xs.pos = max(end, xs.pos)
        return r
    return list(itertools.islice(I.iterate(xs, node), *b))


def i_count(I, a, kw, node):
    s, d = known(a[0] if a else kw.get("start"), 0), known(a[1] if len(a) > 1 else kw.get("step"), 1)
    return [K(s + d * i) for i in range(LONG)]


def i_cycle(I, a, kw, node):
    xs = I.iterate(a[0], node)
    return [xs[i % len(xs)] for i in range(LONG)] if xs else []


def i_takewhile(I, a, kw, node):
    for x in I.iter_live(a[1], node):
        if not I.truth(I.call(a[0], [x], {}, node)):
            return
        yield x


def i_dropwhile(I, a, kw, node):
    go = False
    for x in I.iterate(a[1], node):
        go = go or not I.truth(I.call(a[0], [x], {}, node))
        if go:
            yield x


def i_groupby(I, a, kw, node):
    key = a[1] if len(a) > 1 else kw.get("key")
    cur, out = None, []
    for x in I.iterate(a[0], node):
        k = x if key is None or isinstance(key, K) else I.call(key, [x], {}, node)
        if out and I.eq(cur, k):
            out[-1].items[1].items.append(x)
        else:
            cur = k
            out.append(tup(k, Lst("iter", [x])))
    return out


def i_zip_longest(I, a, kw, node):
    cols = [I.iterate(x, node) for x in a]
    return [tup(*t) for t in itertools.zip_longest(*cols, fillvalue=kw.get("fillvalue", NONE))]


def i_accumulate(I, a, kw, node):
    f = a[1] if len(a) > 1 else kw.get("func")
    xs = I.iterate(a[0], node)
    if "initial" in kw and not (isinstance(kw["initial"], K) and kw["initial"].val is None):
        xs = [kw["initial"]] + xs
    out = []
    for x in xs:
        if out:
            x = I.binop(ast.Add(), out[-1], x, node) if f is None or isinstance(f, K) else I.call(f, [out[-1], x], {}, node)
        out.append(x)
    return out


def i_repeat(I, a, kw, node):
    n = a[1] if len(a) > 1 else kw.get("times")
    return [a[0]] * (LONG if n is None else known(n))


def i_compress(I, a, kw, node):
    return [x for x, s in zip(I.iterate(a[0], node), I.iterate(a[1], node)) if I.truth(s)]


def i_pairwise(I, a, kw, node):
    xs = I.iterate(a[0], node)
    return [tup(x, y) for x, y in zip(xs, xs[1:])]


def combos(f):
    def h(I, a, kw, node):
        return [tup(*t) for t in f(I.iterate(a[0], node), *[known(x) for x in a[1:]])]
    return h


def i_tee(I, a, kw, node):
    xs = I.iterate(a[0], node)
    return tup(*[Lst("iter", list(xs)) for _ in range(known(a[1] if len(a) > 1 else None, 2))])


def f_partial(I, a, kw, node):
    f, pre, pkw = a[0], list(a[1:]), dict(kw)
    return Native(lambda I, x, k: I.call(f, pre + list(x), {**pkw, **k}), "partial")


def f_reduce(I, a, kw, node):
    xs = I.iterate(a[1], node)
    if len(a) > 2:
        xs = [a[2]] + xs
    if not xs:
        I.raise_ext("builtins.TypeError", node=node)
    r = xs[0]
    for x in xs[1:]:
        r = I.call(a[0], [r, x], {}, node)
    return r


class CmpKey(V):
    pass


def f_cmp_to_key(I, a, kw, node):
    c = Cls("K", I.stack[-1].fn.module, [Ext("builtins.object")], ast.parse("class K: pass").body[0])
    c.mro = [c, Ext("builtins.object")]
    c.ns["__lt__"] = Native(lambda I, x, k: kbool(I.less(I.call(a[0], [x[0].fields["obj"], x[1].fields["obj"]], {}), K(0))), "__lt__")

    def make(I, x, k):
        return Obj(c, I.fresh_id("key"), {"obj": x[0]})
    return Native(make, "cmp_to_key")


def binary(op):
    return lambda I, a, kw, node: I.binop(op(), a[0], a[1], node)


def comparison(op):
    return lambda I, a, kw, node: kbool(I.compare(op(), a[0], a[1], node))


def o_itemgetter(I, a, kw, node):
    def g(I, x, k):
        r = [I.getitem(x[0], i, node) for i in a]
        return r[0] if len(r) == 1 else tup(*r)
    return Native(g, "itemgetter")


def o_attrgetter(I, a, kw, node):
    def one(o, path):
        for n in known(path).split("."):
            o = I.getattr_(o, n, node)
        return o

    def g(I, x, k):
        r = [I.force(one(I.force(x[0]), n)) for n in a]
        return r[0] if len(r) == 1 else tup(*r)
    return Native(g, "attrgetter")


def o_methodcaller(I, a, kw, node):
    return Native(lambda I, x, k: I.call(I.getattr_(I.force(x[0]), known(a[0]), node), list(a[1:]), kw, node), "methodcaller")


def dunder(I, v, name):
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        return I.p.find(v.cls, name)
    return None


def c_copy(I, a, kw, node):
    v = a[0]
    r = dunder(I, v, "__copy__")
    if r:
        return I.call(Bound(r[1], v), [], {}, node)
    if isinstance(v, Lst):
        return Lst(v.kind, list(v.items), ordered=v.ordered)
    if isinstance(v, Dct) and not v.rest:
        return Dct(v.entries)
    if isinstance(v, Obj) and isinstance(v.cls, Cls) and not v.lazy:
        return clone(I, v, lambda x: x)
    if isinstance(v, (K, Fn, Cls, Bound, Native, Ext)):
        return v
    return Sym(("ext", "copy.copy", term_of(v)), I.kinds(v))


def clone(I, v, f):
    if v.cls.enum:
        return v
    I.counter += 1
    o = Obj(v.cls, f"{v.cls.name}#{I.counter}", site=I.loc())
    o.fields.update({k: f(x) for k, x in v.fields.items()})
    if v.payload is not None:
        p = v.payload
        o.payload = Lst(p.kind, [f(x) for x in p.items]) if isinstance(p, Lst) else Dct([(f(x), f(y)) for x, y in p.entries])
        o.payload.owner = o
    return o


def c_deepcopy(I, a, kw, node):
    seen = {}

    def deep(v):
        v = I.force(v)
        if isinstance(v, (K, Fn, Cls, Bound, Native, Ext)):
            return v
        if id(v) in seen:
            return seen[id(v)][0]
        r = dunder(I, v, "__deepcopy__")
        if r:
            n = I.call(Bound(r[1], v), [Dct()], {}, node)
        elif isinstance(v, Lst):
            n = Lst(v.kind, [], ordered=v.ordered)
            seen[id(v)] = (n, v)
            n.items.extend(deep(x) for x in v.items)
        elif isinstance(v, Dct) and not v.rest:
            n = Dct()
            seen[id(v)] = (n, v)
            n.entries.extend([deep(x), deep(y)] for x, y in v.entries)
        elif isinstance(v, Obj) and isinstance(v.cls, Cls) and not v.lazy:
            n = clone(I, v, deep)
        else:
            n = Sym(("ext", "copy.deepcopy", term_of(v)), I.kinds(v))
        seen[id(v)] = (n, v)
        return n
    return deep(a[0])


def x_suppress(I, a, kw, node):
    def leave(I, x, k):
        return kbool(len(x) > 1 and isinstance(x[1], Obj) and any(I.isinstance_(x[1], c) for c in a))
    return Obj(Ext("contextlib.suppress"), I.fresh_id("cm"),
               {"__enter__": Native(lambda I, x, k: NONE), "__exit__": Native(leave)})


def x_nullcontext(I, a, kw, node):
    v = a[0] if a else kw.get("enter_result", NONE)
    return Obj(Ext("contextlib.nullcontext"), I.fresh_id("cm"),
               {"__enter__": Native(lambda I, x, k: v), "__exit__": Native(lambda I, x, k: NONE)})


def d_defaultdict(I, a, kw, node):
    d = EXT["dict"](I, a[1:], kw, node)
    f = a[0] if a else NONE
    if not (isinstance(f, K) and f.val is None):
        d.default = f
    return d


def d_counter(I, a, kw, node):
    d = Dct()
    d.default = Native(lambda I, x, k: K(0), "zero")
    if a and isinstance(a[0], Dct):
        d.entries = [list(e) for e in a[0].entries]
    elif a:
        for x in I.iterate(a[0], node):
            o = I.dct_get(d, x)
            I.dct_set(d, x, I.binop(ast.Add(), o if o is not None else K(0), K(1), node))
    return d


def b_fromkeys(I, a, kw, node):
    d = Dct()
    for x in I.iterate(a[0], node):
        I.dct_set(d, x, a[1] if len(a) > 1 else NONE)
    return d


def b_vars(I, a, kw, node):
    v = a[0]
    if isinstance(v, Obj) and not v.lazy:
        return Dct([(K(k), x) for k, x in v.fields.items()])
    return Sym(("vars", term_of(v)), {"dict"})


def conv1(f, name):
    def h(I, a, kw, node):
        try:
            vals = [extern.unlift(x) for x in a]
        except LookupError:
            return Sym(("ext", name) + tuple(term_of(x) for x in a), {name if name == "bytes" else "str"})
        try:
            return K(f(*vals))
        except (TypeError, ValueError) as e:
            I.raise_ext("builtins." + type(e).__name__, node=node)
    return h


def is_dataclass(c):
    r = getattr(c.node, "_dc", None)
    if r is None:
        r = False
        for d in getattr(c.node, "decorator_list", ()):
            d = d.func if isinstance(d, ast.Call) else d
            r = r or (d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")) == "dataclass"
        c.node._dc = r
    return r


def is_named(c):
    return any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in c.mro)


def annotated(c):
    """(name, default or None) of the fields of a dataclass or named tuple."""
    out = {}
    for b in reversed(c.mro):
        if isinstance(b, Cls):
            for s in b.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    out[s.target.id] = b.ns.get(s.target.id) if s.value is not None else None
    return list(out.items())


def record(I, c, o, args, kw, node):
    """Fill a new instance of a dataclass or named tuple; False for any other class."""
    named = is_named(c)
    if not named and not is_dataclass(c) or I.p.find(c, "__init__") is not None and not named:
        return False
    fs = annotated(c)
    if len(args) > len(fs) or set(kw) - {n for n, _ in fs}:
        I.raise_ext("builtins.TypeError", node=node)
    vals = []
    for i, (n, d) in enumerate(fs):
        if i < len(args):
            v = args[i]
        elif n in kw:
            v = kw[n]
        elif isinstance(d, Obj) and isinstance(d.cls, Ext) and d.cls.name == "dataclasses.Field":
            if "default_factory" in d.fields:
                v = I.call(d.fields["default_factory"], [], {}, node)
            elif "default" in d.fields:
                v = d.fields["default"]
            else:
                I.raise_ext("builtins.TypeError", node=node)
        elif d is not None:
            v = d
        else:
            I.raise_ext("builtins.TypeError", node=node)
        vals.append(v)
        o.fields[n] = v
    if named:
        o.payload = Lst("tuple", vals)
        o.payload.owner = o
        o.fields["_fields"] = tup(*[K(n) for n, _ in fs])
        o.fields["_replace"] = Native(lambda I, a, k: I.instantiate(c, [], {**{n: o.fields[n] for n, _ in fs}, **k}), "_replace")
        o.fields["_asdict"] = Native(lambda I, a, k: Dct([(K(n), o.fields[n]) for n, _ in fs]), "_asdict")
    else:
        r = I.p.find(c, "__post_init__")
        if r:
            I.call(Bound(r[1], o), [], {}, node)
    return True


def d_field(I, a, kw, node):
    return Obj(Ext("dataclasses.Field"), I.fresh_id("field"), dict(kw))


def d_replace(I, a, kw, node):
    return I.instantiate(a[0].cls, [], {**{n: a[0].fields[n] for n, _ in annotated(a[0].cls)}, **kw}, node)


def n_namedtuple(I, a, kw, node):
    fs = known(a[1]).replace(",", " ").split() if isinstance(a[1], K) else [known(x) for x in I.iterate(a[1], node)]
    st = ast.parse(f"class {known(a[0])}:\n" + "".join(f"    {f}: object\n" for f in fs)).body[0]
    c = Cls(known(a[0]), I.stack[-1].fn.module, [Ext("typing.NamedTuple")], st)
    c.mro = [c, Ext("typing.NamedTuple"), Ext("builtins.object")]
    return c



EXT.update({
    "itertools.chain.from_iterable": lambda I, a, kw, node: Lst("iter", [y for x in I.iterate(a[0], node) for y in I.iterate(x, node)]),
    "itertools.islice": it(i_islice), "itertools.count": it(i_count), "itertools.cycle": it(i_cycle),
    "itertools.takewhile": it(i_takewhile), "itertools.dropwhile": it(i_dropwhile), "itertools.groupby": it(i_groupby),
    "itertools.zip_longest": it(i_zip_longest), "itertools.accumulate": it(i_accumulate), "itertools.repeat": it(i_repeat),
    "itertools.starmap": it(lambda I, a, kw, node: [I.call(a[0], I.iterate(x, node), {}, node) for x in I.iterate(a[1], node)]),
    "itertools.filterfalse": it(lambda I, a, kw, node: [x for x in I.iterate(a[1], node) if not I.truth(x if isinstance(a[0], K) else I.call(a[0], [x], {}, node))]),
    "itertools.compress": it(i_compress), "itertools.pairwise": it(i_pairwise), "itertools.tee": i_tee,
    "itertools.combinations": it(combos(itertools.combinations)), "itertools.permutations": it(combos(itertools.permutations)),
    "functools.partial": f_partial, "functools.reduce": f_reduce, "functools.cmp_to_key": f_cmp_to_key,
    "operator.itemgetter": o_itemgetter, "operator.attrgetter": o_attrgetter, "operator.methodcaller": o_methodcaller,
    "operator.contains": lambda I, a, kw, node: kbool(I.contains(a[0], a[1], node)),
    "operator.getitem": lambda I, a, kw, node: I.getitem(a[0], a[1], node),
    "operator.not_": lambda I, a, kw, node: kbool(not I.truth(a[0])),
    "operator.truth": lambda I, a, kw, node: kbool(I.truth(a[0])),
    "operator.neg": lambda I, a, kw, node: I.binop(ast.Sub(), K(0), a[0], node),
    "copy.copy": c_copy, "copy.deepcopy": c_deepcopy,
    "contextlib.suppress": x_suppress, "contextlib.nullcontext": x_nullcontext,
    "collections.defaultdict": d_defaultdict, "collections.Counter": d_counter,
    "dataclasses.field": d_field, "dataclasses.replace": d_replace, "collections.namedtuple": n_namedtuple,
    "dict.fromkeys": b_fromkeys, "collections.OrderedDict.fromkeys": b_fromkeys, "vars": b_vars,
    "hex": conv1(hex, "hex"), "bin": conv1(bin, "bin"), "oct": conv1(oct, "oct"), "ascii": conv1(ascii, "ascii"), "bytes": conv1(bytes, "bytes"),
})
for _n, _o in (("add", ast.Add), ("concat", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv),
               ("mod", ast.Mod), ("pow", ast.Pow), ("and_", ast.BitAnd), ("or_", ast.BitOr), ("xor", ast.BitXor)):
    EXT["operator." + _n] = binary(_o)
for _n, _o in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("is_", ast.Is), ("is_not", ast.IsNot)):
    EXT["operator." + _n] = comparison(_o)


# ---- match ---------------------------------------------------------------
SELF = {"builtins." + n for n in ("bool", "bytearray", "bytes", "dict", "float", "frozenset", "int", "list", "set", "str", "tuple")}


def match(I, pat, v, node):
    v = I.force(v)
    t = type(pat).__name__
    if t == "MatchAs":
        if pat.pattern is not None and not match(I, pat.pattern, v, node):
            return False
        if pat.name is not None:
            I.assign(ast.Name(pat.name, ast.Store(), lineno=pat.lineno, col_offset=0), v)
        return True
    if t == "MatchOr":
        return any(match(I, p, v, node) for p in pat.patterns)
    if t == "MatchValue":
        return I.compare(ast.Eq(), v, I.expr(pat.value), node)
    if t == "MatchSingleton":
        return I.compare(ast.Is(), v, K(pat.value), node)
    if t == "MatchClass":
        c = I.force(I.expr(pat.cls))
        if not I.isinstance_(v, c):
            return False
        if pat.patterns:
            if isinstance(c, Ext) and c.name in SELF:
                if not match(I, pat.patterns[0], v, node):
                    return False
            else:
                names = I.iterate(I.getattr_(c, "__match_args__", node), node)
                for n, p in zip(names, pat.patterns):
                    if not part(I, v, known(n), p, node):
                        return False
        return all(part(I, v, n, p, node) for n, p in zip(pat.kwd_attrs, pat.kwd_patterns))
    if t == "MatchSequence":
        if not I.isinstance_(v, Ext("builtins.list")) and not I.isinstance_(v, Ext("builtins.tuple")) and not (isinstance(v, Lst) and v.kind == "deque"):
            return False
        xs = I.iterate(v, node)
        star = [i for i, p in enumerate(pat.patterns) if isinstance(p, ast.MatchStar)]
        n = len(pat.patterns)
        if not star:
            return len(xs) == n and all(match(I, p, x, node) for p, x in zip(pat.patterns, xs))
        i = star[0]
        if len(xs) < n - 1:
            return False
        k = len(xs) - (n - 1 - i)
        if not all(match(I, p, x, node) for p, x in zip(pat.patterns[:i], xs)):
            return False
        if pat.patterns[i].name is not None:
            I.assign(ast.Name(pat.patterns[i].name, ast.Store(), lineno=pat.lineno, col_offset=0), Lst("list", xs[i:k]))
        return all(match(I, p, x, node) for p, x in zip(pat.patterns[i + 1:], xs[k:]))
    if t == "MatchMapping":
        if not I.isinstance_(v, Ext("builtins.dict")):
            return False
        for ke, p in zip(pat.keys, pat.patterns):
            kv = I.expr(ke)
            if not I.contains(v, kv, node) or not match(I, p, I.getitem(v, kv, node), node):
                return False
        if pat.rest is not None:
            ks = [I.expr(x) for x in pat.keys]
            I.assign(ast.Name(pat.rest, ast.Store(), lineno=pat.lineno, col_offset=0),
                     Dct([(a, b) for a, b in I.dict_items(v) if not any(I.eq(a, x) for x in ks)]))
        return True
    from .interp import Unsupported
    raise Unsupported("pattern " + t)


def part(I, v, name, p, node):
    if not I.truth(EXT["hasattr"](I, [v, K(name)], {}, node)):
        return False
    return match(I, p, I.getattr_(v, name, node), node)
