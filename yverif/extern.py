"""Transfer functions for Python builtins and the standard library."""
from __future__ import annotations
import builtins
import collections
import importlib
import math
import decimal
from decimal import Decimal
import re as _re

from .values import *

CLASS_KINDS = {
    "builtins.str": frozenset({"str"}), "builtins.int": frozenset({"int", "bool"}),
    "builtins.bool": frozenset({"bool"}), "builtins.float": frozenset({"float"}),
    "decimal.Decimal": frozenset({"Decimal"}), "builtins.list": frozenset({"list"}),
    "builtins.dict": frozenset({"dict"}), "builtins.tuple": frozenset({"tuple"}),
    "builtins.set": frozenset({"set"}), "builtins.bytes": frozenset({"bytes"}),
    "numbers.Number": frozenset({"int", "float", "Decimal", "bool"}),
    "numbers.Real": frozenset({"int", "float", "bool"}), "numbers.Integral": frozenset({"int", "bool"}),
    "builtins.NoneType": frozenset({"none"}), "types.NoneType": frozenset({"none"}),
    "collections.abc.Mapping": frozenset({"dict"}), "collections.abc.MutableMapping": frozenset({"dict"}),
    "collections.abc.Sequence": frozenset({"list", "tuple", "str", "bytes"}),
    "collections.abc.MutableSequence": frozenset({"list"}),
    "typing.Mapping": frozenset({"dict"}), "typing.Sequence": frozenset({"list", "tuple", "str", "bytes"}),
    "builtins.object": ALL_KINDS,
}

BUILTIN_CONST = {"None": None, "True": True, "False": False, "NotImplemented": NotImplemented, "__debug__": True,
                 "Ellipsis": Ellipsis}
EXT_CONST = {"typing.TYPE_CHECKING": False, "math.nan": math.nan, "math.inf": math.inf, "math.pi": math.pi,
             "os.sep": "/", "os.pathsep": ":"}
EXT_CONST.update({"re." + n: getattr(_re, n) for n in dir(_re) if isinstance(getattr(_re, n), _re.RegexFlag)})
EXT_CONST.update({"decimal." + n: getattr(decimal, n) for n in
                  ("ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN", "ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_05UP")})
LSTTYPE = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": collections.deque, "iter": list}

COMMON_METHODS = {"copy", "append", "extend", "items", "keys", "values", "split", "join", "strip", "startswith",
                  "endswith", "encode", "decode", "lower", "upper", "replace", "partition", "rpartition", "format",
                  "appendleft", "popleft", "pop", "setdefault", "isdigit", "islower", "isalpha",
                  "lstrip", "rstrip", "__hash__", "__str__", "rsplit", "remove", "discard", "extendleft", "reverse", "sort",
                  "isoformat", "add", "clear"}

_cls_cache = {}


def ext_class(name):
    if name in _cls_cache:
        return _cls_cache[name]
    res = None
    mod, _, n = name.rpartition(".")
    if mod.split(".")[0] in ("builtins", "decimal", "collections", "json", "binascii", "enum", "abc", "typing", "xml",
                             "datetime", "os", "io", "re", "numbers", "types", "argparse", "urllib", "base64", "sys",
                             "math", "itertools", "hashlib", "pickle"):
        try:
            res = getattr(importlib.import_module(mod), n, None)
        except Exception:
            res = None
    if not isinstance(res, type):
        res = None
    _cls_cache[name] = res
    return res


def opaque_base(name):
    return ext_class(name) is None


def ext_issub(a, b):
    if a == b:
        return True
    if b == "builtins.object":
        return True
    ca, cb = ext_class(a), ext_class(b)
    if ca is not None and cb is not None:
        try:
            return issubclass(ca, cb)
        except TypeError:
            return False
    if ca is None and b in ("builtins.Exception", "builtins.BaseException"):
        return True
    return False


def T(*t, kinds=None):
    return Sym(tuple(t), kinds)


# ---------------------------------------------------------------------------
def ext_init(I, o, args, kw, node):
    """__init__ inherited from an external base."""
    p = o.payload
    if p is not None:
        if isinstance(p, Dct):
            if args:
                fill_dict(I, p, args[0], node)
            for k, v in kw.items():
                I.dct_set(p, K(k), v)
        elif p.kind not in ("tuple", "frozenset"):
            p.items = list(I.iterate(args[0], node)) if args else []
            if p.kind == "set":
                p.items = I.mkset(p.items).items
        return
    for c in o.cls.mro:
        n = getattr(c, "name", "")
        b = ext_class(n) if isinstance(c, Ext) else None
        if b is not None and issubclass(b, BaseException):
            o.fields["args"] = Lst("tuple", list(args))
            return
    if any(isinstance(c, Ext) and opaque_base(c.name) and c.name.split(".")[0] not in ("typing",) for c in o.cls.mro):
        o.lazy = True
        return
    if args or kw:
        I.event("arity", o.cls.name, node=node)
        I.raise_ext("builtins.TypeError", node=node)


def fill_dict(I, d, src, node):
    s = I.force(src)
    if isinstance(s, Obj) and s.payload is not None:
        s = s.payload
    if isinstance(s, Dct):
        for k, v in s.entries:
            I.dct_set(d, k, v)
        if s.rest:
            d.rest = s.rest
            d.name = s.name
        return
    for k, v in I.dict_items(s):
        I.dct_set(d, k, v)


# ---------------------------------------------------------------------------
def call_ext(I, name, args, kw, node):
    args = [I.force(a) for a in args]
    short = name[9:] if name.startswith("builtins.") else name
    h = EXT.get(short)
    if h is not None:
        try:
            return h(I, args, kw, node)
        except IndexError:
            if len(args) + len(kw) < 3:
                I.raise_ext("builtins.TypeError", node=node)    # missing argument
            raise
    cls = ext_class(name)
    if cls is not None and issubclass(cls, BaseException):
        o = Obj(Ext(name), I.fresh_id("exc"), {"args": Lst("tuple", args)})
        return o
    if name.startswith("builtins.") and name.count(".") == 2:
        # unbound method of a builtin type: list.append(x, y)
        b, _, m = name.rpartition(".")
        if args and m not in ("maketrans", "fromkeys", "fromhex"):
            return call_method(I, BuiltinMethod(args[0], m, b), args[1:], kw, node)
    if name.startswith("typing.") or name.startswith("abc."):
        return args[0] if args and name not in ("typing.TypeVar", "typing.NewType") else Ext(name)
    if name in PURE and not kw:
        try:
            vals = [unlift(a) for a in args]
        except LookupError:
            vals = None
        if vals is not None:
            try:
                return lift(PURE[name](*vals))
            except decimal.InvalidOperation:
                I.raise_ext("decimal.InvalidOperation", node=node)
            except (ValueError, TypeError, OverflowError, ZeroDivisionError, IndexError) as e:
                I.raise_ext("builtins." + type(e).__name__, node=node)
    t = ("ext", name) + tuple(term_of(a) for a in args) + tuple((k, term_of(v)) for k, v in sorted(kw.items()) if k != "**")
    I.event("extcall", name, args, kw, node=node)
    for exc, cond in MAY_RAISE.get(name, ()):
        if I.branch(("raises", exc, t)):
            I.raise_ext(exc, node=node)
    return Sym(t, EXT_KINDS.get(name))


import urllib.parse as _up
import hashlib as _hashlib
import json as _json
import xml.sax.saxutils as _sx
PURE = {"re.match": _re.match, "re.fullmatch": _re.fullmatch, "re.search": _re.search, "re.split": _re.split, "re.findall": _re.findall, "re.escape": _re.escape, "re.finditer": lambda *a: [m for m in _re.finditer(*a)],
        "urllib.parse.unquote": _up.unquote, "urllib.parse.quote": _up.quote, "json.dumps": _json.dumps,
        "xml.sax.saxutils.quoteattr": _sx.quoteattr, "xml.sax.saxutils.escape": _sx.escape,
        "builtins.ord": ord, "builtins.chr": chr, "builtins.divmod": divmod, "builtins.pow": pow, "builtins.str.maketrans": str.maketrans, "builtins.format": format}
PURE.update({"hashlib." + n: getattr(_hashlib, n) for n in ("sha1", "sha256", "sha512", "md5", "blake2b")})
PURE.update({"math." + n: getattr(math, n) for n in
             ("isnan", "isinf", "isfinite", "ceil", "floor", "copysign", "fmod", "trunc", "modf", "fabs", "isclose")})
MAY_RAISE = {}
EXT_KINDS = {"json.dumps": {"str"}, "urllib.parse.unquote": {"str"}, "urllib.parse.quote": {"str"},
             "xml.sax.saxutils.quoteattr": {"str"}, "xml.sax.saxutils.escape": {"str"},
             "math.isnan": {"bool"}, "math.ceil": {"int"}, "math.floor": {"int"}, "math.copysign": {"float"},
             "base64.b64encode": {"bytes"}, "base64.b64decode": {"bytes"}, "os.path.join": {"str"}}


def b_isinstance(I, a, kw, node):
    return kbool(I.isinstance_(a[0], a[1]))


def b_issubclass(I, a, kw, node):
    if isinstance(a[0], (Cls, Ext)) and isinstance(a[1], (Cls, Ext)):
        return kbool(I.p.issub(a[0], a[1]))
    return Sym(("issubclass", term_of(a[0]), term_of(a[1])), {"bool"})


def b_len(I, a, kw, node):
    v = a[0]
    if isinstance(v, K):
        try:
            return K(len(v.val))
        except TypeError:
            I.raise_ext("builtins.TypeError", node=node)
    if isinstance(v, Obj):
        from .interp import Bound as _B
        r = I.p.find(v.cls, "__len__") if v.cls.__class__ is Cls else None
        if r:
            return I.call(Bound(r[1], v), [])
        if v.payload is not None:
            return b_len(I, [v.payload], kw, node)
    if isinstance(v, Lst):
        if v.kind == "iter":
            I.raise_ext("builtins.TypeError", node=node)
        return K(len(v.items))
    if isinstance(v, Dct):
        if not v.rest:
            return K(len(v.entries))
        return Sym(("len", ("dict", v.name)), {"int"})
    if isinstance(v, Sym):
        if I.strict(v) and not I.narrow(v, frozenset({"str", "bytes", "list", "dict", "tuple", "set", "obj"}), "sized"):
            I.raise_ext("builtins.TypeError", node=node)
        if v.term and v.term[0] == "cat" and I.cfg.strict is None:
            pass
        if ("len", v.term) in I.assume:
            return K(I.assume[("len", v.term)])
        return Sym(("len", v.term), {"int"})
    return Sym(("len", term_of(v)), {"int"})


def b_str(I, a, kw, node):
    if not a:
        return K("")
    return I.str_(a[0])


def b_repr(I, a, kw, node):
    v = a[0]
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        r = I.p.find(v.cls, "__repr__")
        if r:
            return I.call(Bound(r[1], v), [])
    return I.repr_(v)


def conv(name, okkinds, strfail, kinds):
    def f(I, a, kw, node):
        if not a:
            return K({"int": 0, "float": 0.0}[name])
        v = a[0]
        if isinstance(v, K):
            try:
                return K({"int": int, "float": float, "Decimal": Decimal}[name](*[x.val for x in a if isinstance(x, K)]))
            except ValueError:
                I.raise_ext("builtins.ValueError", node=node)
            except TypeError:
                I.raise_ext("builtins.TypeError", node=node)
            except OverflowError:
                I.raise_ext("builtins.OverflowError", node=node)
            except decimal.InvalidOperation:
                I.raise_ext("decimal.InvalidOperation", node=node)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            r = I.p.find(v.cls, {"int": "__int__", "float": "__float__"}.get(name, "__x__"))
            if r:
                return I.call(Bound(r[1], v), [])
        ks = I.kinds(v)
        if isinstance(v, Sym):
            if I.strict(v):
                if not I.narrow(v, okkinds | {"str", "obj"}, name + "able"):
                    I.raise_ext("builtins.TypeError", node=node)
                ks = I.kinds(v)
            if "str" in ks and (I.strict(v) or I.cfg.strict):
                isstr = ks == {"str"} or I.narrow(v, frozenset({"str"}), "str")
                if isstr:
                    key = ("parses", name, v.term) + tuple(term_of(x) for x in a[1:])
                    if not I.branch(key):
                        I.raise_ext(strfail, node=node)
            elif name == "int" and "float" in ks and (I.strict(v) and I.cfg.strict):
                if I.branch(("nonfinite", v.term)):
                    I.raise_ext("builtins.OverflowError", node=node)
            if I.kinds(v) <= kinds and len(a) == 1:
                return v
            return Sym((name + "of", v.term) + tuple(term_of(x) for x in a[1:]), kinds,
                       rank=v.rank)
        I.raise_ext("builtins.TypeError", node=node)
    return f


def b_bool(I, a, kw, node):
    return kbool(I.truth(a[0])) if a else FALSE


def b_list(I, a, kw, node):
    return Lst("list", I.iterate(a[0], node) if a else [], site=I.loc(node))


def b_tuple(I, a, kw, node):
    return Lst("tuple", I.iterate(a[0], node) if a else [])


def b_deque(I, a, kw, node):
    return Lst("deque", I.iterate(a[0], node) if a else [], site=I.loc(node))


def b_set(I, a, kw, node):
    return I.mkset(I.iterate(a[0], node) if a else [])


def b_frozenset(I, a, kw, node):
    return I.mkset(I.iterate(a[0], node) if a else [], "frozenset")


def b_dict(I, a, kw, node):
    d = Dct(site=I.loc(node))
    if a:
        fill_dict(I, d, a[0], node)
    for k, v in kw.items():
        I.dct_set(d, K(k), v)
    return d


def b_range(I, a, kw, node):
    if all(isinstance(x, K) for x in a):
        try:
            r = range(*[x.val for x in a])
        except TypeError:
            I.raise_ext("builtins.TypeError", node=node)
        if len(r) > 5000:
            from .interp import Cut
            raise Cut("range")
        return Lst("list", [K(i) for i in r])
    if len(a) == 1 and isinstance(a[0], Sym) and a[0].term[0] == "len":
        n = len(I.iter_sym(Sym(a[0].term[1]), node))
        return Lst("list", [K(i) for i in range(n)])
    return Sym(("range",) + tuple(term_of(x) for x in a), {"list"})


def growing(I, v):
    """The items of a list: an iterator over it sees what is added later."""
    v = I.force(v)
    if isinstance(v, Obj) and v.payload is not None and not (isinstance(v.cls, Cls) and I.p.find(v.cls, "__iter__")):
        v = v.payload
    return v.items if isinstance(v, Lst) and v.kind == "list" else None


class Numbered:
    """View of a list as pairs of index and item."""
    def __init__(self, base, start):
        self.base, self.start, self.memo = base, start, {}

    def __len__(self):
        return len(self.base)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(len(self)))]
        if i < 0:
            i += len(self)
        x = self.base[i]
        if i not in self.memo or self.memo[i].items[1] is not x:
            self.memo[i] = Lst("tuple", [K(i + self.start), x])
        return self.memo[i]


def b_enumerate(I, a, kw, node):
    st = kw.get("start", a[1] if len(a) > 1 else K(0))
    s = st.val if isinstance(st, K) else 0
    live = growing(I, a[0])
    if live is not None:
        return Lst("iter", Numbered(live, s))
    return Lst("iter", [Lst("tuple", [K(i + s), x]) for i, x in enumerate(I.iterate(a[0], node))])


def b_zip(I, a, kw, node):
    its = [I.iterate(x, node) for x in a]
    return Lst("iter", [Lst("tuple", list(t)) for t in zip(*its)])


def b_reversed(I, a, kw, node):
    v = a[0]
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        r = I.p.find(v.cls, "__reversed__")
        if r:
            return I.call(Bound(r[1], v), [])
    return Lst("iter", list(reversed(I.iterate(v, node))))


def b_sorted(I, a, kw, node):
    items = I.iterate(a[0], node)
    return Lst("list", sort_items(I, items, kw, node), site=I.loc(node))


def sort_items(I, items, kw, node):
    key = kw.get("key")
    if isinstance(key, K) and key.val is None:
        key = None
    keys = [I.call(key, [x]) if key is not None else x for x in items]
    rev = kw.get("reverse")
    rv = I.truth(rev) if rev is not None else False
    pairs = list(zip(keys, items))
    # insertion sort with the abstract order: exact for constants, one atom per compared pair otherwise
    out = []
    cks = [concrete_key(I, k) for k in keys]
    if len(pairs) > 1 and None not in cks:
        try:
            pairs = [p for _, _, p in sorted(zip(((c[0],) for c in cks), range(len(pairs)), pairs), key=lambda z: z[0], reverse=rv)]
            return [p[1] for p in pairs]
        except TypeError:
            I.raise_ext("builtins.TypeError", node=node)
    if len(pairs) > 4 or not all(orderable(k) for k in keys):
        I.event("sorted", [term_of(k) for k in keys], node=node)
        return [p[1] for p in pairs]
    for p in pairs:
        i = len(out)
        while i > 0 and (I.less(out[i - 1][0], p[0], node) if rv else I.less(p[0], out[i - 1][0], node)):
            i -= 1
        out.insert(i, p)
    return [p[1] for p in out]


def concrete_key(I, k):
    """1-tuple of the concrete value of a sort key, None if not concrete."""
    k = I.force(k)
    if isinstance(k, K):
        return (k.val,)
    if isinstance(k, Lst) and k.kind in ("tuple", "list"):
        r = [concrete_key(I, i) for i in k.items]
        return None if None in r else ((tuple if k.kind == "tuple" else list)(i[0] for i in r),)
    return None


def orderable(k):
    if isinstance(k, K):
        return True
    if isinstance(k, Sym):
        return k.rank is not None
    if isinstance(k, Lst) and k.kind == "tuple":
        return all(orderable(x) for x in k.items)
    if isinstance(k, Obj) and isinstance(k.cls, Cls):
        return any("__lt__" in c.ns for c in k.cls.mro if isinstance(c, Cls))
    return False


def b_minmax(big):
    def f(I, a, kw, node):
        items = I.iterate(a[0], node) if len(a) == 1 else list(a)
        key = kw.get("key")
        if not items:
            if "default" in kw:
                return kw["default"]
            I.raise_ext("builtins.ValueError", node=node)
        ts = [term_of(x) for x in items]
        if key is None and any(isinstance(x, Sym) and x.rank is None for x in items) and len(items) > 1 and \
                all(isinstance(x, (Sym, K)) for x in items):
            uniq = []
            for x in items:
                if all(term_of(x) != term_of(y) for y in uniq):
                    uniq.append(x)
            if len(uniq) == 1:
                return uniq[0]
            if I.cfg.strict:
                for x in uniq:
                    if isinstance(x, Sym) and I.strict(x) and "none" in I.kinds(x):
                        if not I.narrow(x, ALL_KINDS - {"none"}, "none"):
                            I.raise_ext("builtins.TypeError", node=node)
            return Sym(("max" if big else "min",) + tuple(sorted({term_of(x) for x in uniq}, key=repr)))
        best = items[0]
        kb = I.call(key, [best]) if key is not None else best
        for x in items[1:]:
            kx = I.call(key, [x]) if key is not None else x
            if I.less(kb, kx, node) if big else I.less(kx, kb, node):
                best, kb = x, kx
        return best
    return f


def b_sum(I, a, kw, node):
    import ast
    acc = a[1] if len(a) > 1 else K(0)
    for x in I.iterate(a[0], node):
        acc = I.binop(ast.Add(), acc, x, node)
    return acc


def b_any(I, a, kw, node):
    return kbool(any(I.truth(x) for x in I.iterate(a[0], node)))


def b_all(I, a, kw, node):
    return kbool(all(I.truth(x) for x in I.iterate(a[0], node)))


def b_map(I, a, kw, node):
    cols = [I.iterate(x, node) for x in a[1:]]
    return Lst("iter", [I.call(a[0], list(t), {}, node) for t in zip(*cols)])


def b_filter(I, a, kw, node):
    f = a[0]
    return Lst("iter", [x for x in I.iterate(a[1], node)
                        if I.truth(x if isinstance(f, K) else I.call(f, [x], {}, node))])


def b_getattr(I, a, kw, node):
    from .interp import AbsRaise
    n = a[1]
    if isinstance(n, K):
        if len(a) > 2:
            ne = len(I.events)
            try:
                return I.getattr_(a[0], n.val, node)
            except AbsRaise as e:
                if isinstance(e.exc, Obj) and isinstance(e.exc.cls, Ext) and e.exc.cls.name == "builtins.AttributeError":
                    del I.events[ne:]
                    return a[2]
                raise
        return I.getattr_(a[0], n.val, node)
    I.event("dynattr", a[0], n, node=node)
    return Sym(("dynattr", term_of(a[0]), term_of(n)))


def b_hasattr(I, a, kw, node):
    from .interp import AbsRaise
    n = a[1]
    if isinstance(n, K):
        o = a[0]
        if isinstance(o, Obj) and o.lazy and n.val not in o.fields and I.p.find(o.cls, n.val) is None and o.exact:
            return kbool(I.branch(("hasattr", term_of(o), n.val)))
        ne = len(I.events)
        try:
            I.getattr_(o, n.val, node)
            return TRUE
        except AbsRaise:
            del I.events[ne:]
            return FALSE
    return Sym(("hasattr", term_of(a[0]), term_of(n)), {"bool"})


def b_setattr(I, a, kw, node):
    if isinstance(a[1], K):
        I.setattr_(a[0], a[1].val, a[2], node)
    else:
        I.event("setattr", a[0], "?", getattr(a[0], "label", None), a[2], node=node)
    return NONE


def b_type(I, a, kw, node):
    v = a[0]
    if isinstance(v, Obj):
        if v.exact:
            return v.cls
        return Sym(("class", term_of(v)), {"obj"})
    if isinstance(v, K):
        return Ext("builtins." + type(v.val).__name__)
    if isinstance(v, Lst):
        return Ext("collections.deque" if v.kind == "deque" else "builtins." + v.kind)
    if isinstance(v, Dct):
        return Ext("builtins.dict")
    if isinstance(v, Sym):
        return Sym(("class", v.term), {"obj"})
    return Ext("builtins.type")


def b_print(I, a, kw, node):
    I.event("print", a, kw, node=node)
    return NONE


def b_next(I, a, kw, node):
    v = a[0]
    if isinstance(v, Lst) and v.kind == "iter":
        if v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if len(a) > 1:
            return a[1]
        I.raise_ext("builtins.StopIteration", node=node)
    if isinstance(v, Sym):
        return Sym(("next", v.term, I.fresh_id()))
    I.raise_ext("builtins.TypeError", node=node)


def b_iter(I, a, kw, node):
    v = a[0]
    if len(a) > 1:
        out = []
        while len(out) < 5000:
            x = I.call(v, [], {}, node)
            if I.eq(x, a[1]):
                break
            out.append(x)
        return Lst("iter", out)
    if isinstance(v, Lst) and v.kind == "iter":
        return v
    live = growing(I, v)
    return Lst("iter", I.iterate(v, node) if live is None else live)


def b_hash(I, a, kw, node):
    return hash_of(I, a[0], node)


def hash_of(I, v, node):
    v = I.force(v)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        # __eq__ without __hash__ in the same class removes hashability
        for c in v.cls.mro:
            if isinstance(c, Cls) and ("__hash__" in c.ns or "__eq__" in c.ns):
                if "__hash__" not in c.ns:
                    I.raise_ext("builtins.TypeError", K("unhashable"), node=node)
                r = I.p.find(v.cls, "__hash__")
                if isinstance(r[1], Fn):
                    return I.call(Bound(r[1], v), [])
                break
        if v.payload is None:
            return Sym(("hash", ("obj", v.name)), {"int"})
        v = v.payload
    if isinstance(v, (Lst, Dct)):
        if isinstance(v, Dct) or v.kind in ("list", "set", "deque"):
            I.raise_ext("builtins.TypeError", K("unhashable"), node=node)
        its = [I.force(x) for x in v.items]
        its = [term_of(hash_of(I, x, node)) if isinstance(x, (Obj, Lst, Dct, K)) else term_of(x) for x in its]
        if v.kind == "frozenset":
            its.sort(key=repr)
        return Sym(("hash", (v.kind,) + tuple(its)), {"int"})
    if isinstance(v, K) and (isinstance(v.val, (int, float)) or type(v.val).__name__ == "Decimal" or v.val in ("", b"")):
        return K(hash(v.val))
    if isinstance(v, Sym) and I.strict(v):
        if not I.narrow(v, ALL_KINDS - {"list", "dict", "set"}, "hashable"):
            I.raise_ext("builtins.TypeError", K("unhashable"), node=node)
    return Sym(("hash", term_of(v)), {"int"})


def b_abs(I, a, kw, node):
    v = a[0]
    if isinstance(v, K):
        return K(abs(v.val))
    return Sym(("abs", term_of(v)), I.kinds(v))


def b_round(I, a, kw, node):
    if all(isinstance(x, K) for x in a):
        try:
            return K(round(*[x.val for x in a]))
        except (ValueError, OverflowError) as e:
            I.raise_ext("builtins." + type(e).__name__, node=node)
    return Sym(("round",) + tuple(term_of(x) for x in a), {"int"} if len(a) == 1 else None)


def b_object(I, a, kw, node):
    return Obj(Ext("builtins.object"), I.fresh_id("object"))


def b_cast(I, a, kw, node):
    return a[1]


def b_callable(I, a, kw, node):
    v = a[0]
    if isinstance(v, (Fn, Bound, Cls, Native, BuiltinMethod, Ext)):
        return TRUE
    if isinstance(v, Obj):
        return kbool(I.p.find(v.cls, "__call__") is not None)
    if isinstance(v, Sym):
        return Sym(("callable", v.term), {"bool"})
    return FALSE


def b_id(I, a, kw, node):
    return Sym(("id", term_of(a[0])), {"int"})


def b_open(I, a, kw, node):
    t = ("open",) + tuple(term_of(x) for x in a)
    I.event("extcall", "open", a, kw, node=node)
    for exc in MAY_RAISE.get("open", ()):
        if I.branch(("raises", exc, t)):
            I.raise_ext(exc, node=node)
    return Sym(t, {"obj"})


def math_f(name, fn):
    def f(I, a, kw, node):
        if all(isinstance(x, K) for x in a):
            try:
                return K(fn(*[x.val for x in a]))
            except (ValueError, OverflowError, TypeError) as e:
                I.raise_ext("builtins." + type(e).__name__, node=node)
        v = a[0]
        if isinstance(v, Sym) and I.cfg.strict and name in ("ceil", "floor"):
            if I.branch(("nonfinite", v.term)):
                I.raise_ext("builtins.OverflowError", node=node)
        return Sym((name,) + tuple(term_of(x) for x in a), EXT_KINDS.get("math." + name))
    return f


def b_now(I, a, kw, node):
    n = I.fresh_id("t")
    return Sym(("now", n), {"obj"}, rank=1000 + I.counter)


def b_product(I, a, kw, node):
    import itertools
    its = [I.iterate(x, node) for x in a]
    return Lst("iter", [Lst("tuple", list(t)) for t in itertools.product(*its)])


def b_chain(I, a, kw, node):
    out = []
    for x in a:
        out.extend(I.iterate(x, node))
    return Lst("iter", out)


def re_sub(I, pat, repl, text, count, node, n=False):
    """re.sub with a function of the analysed program as replacement."""
    parts, pos, k = [], 0, 0
    for mo in pat.finditer(text):
        if count and k == count:
            break
        parts += [K(text[pos:mo.start()]), I.call(repl, [K(mo)], {}, node)]
        pos, k = mo.end(), k + 1
    r = I.cat(parts + [K(text[pos:])])
    return Lst("tuple", [r, K(k)]) if n else r


def b_resub(I, a, kw, node):
    a = list(a) + [kw[n] for n in ("pattern", "repl", "string", "count", "flags")[len(a):] if n in kw]
    names = ("pattern", "repl", "string", "count", "flags")
    d = dict(zip(names, a[:len(a) - len(kw)]), **kw)
    vals = {n: v.val for n, v in d.items() if isinstance(v, K)}
    if set(d) - set(vals) <= {"repl"}:
        pat = vals["pattern"]
        try:
            if isinstance(pat, str):
                pat = _re.compile(pat, vals.get("flags", 0))
            if "repl" in vals:
                return K(pat.sub(vals["repl"], vals["string"], vals.get("count", 0)))
            return re_sub(I, pat, d["repl"], vals["string"], vals.get("count", 0), node)
        except _re.error:
            I.raise_ext("re.error", node=node)
        except TypeError:
            I.raise_ext("builtins.TypeError", node=node)
    t = ("ext", "re.sub") + tuple(term_of(x) for x in d.values())
    I.event("extcall", "re.sub", a, {}, node=node)
    return Sym(t, {"str"})


def b_compile(I, a, kw, node):
    if all(isinstance(x, K) for x in a):
        try:
            return K(_re.compile(*[x.val for x in a]))
        except _re.error:
            I.raise_ext("re.error", node=node)
    return Sym(("re.compile",) + tuple(term_of(x) for x in a), {"obj"})


def xsd_regex(pat, back_references=True, lazy_quantifiers=True, anchors=True):
    """Model of elementpath.translate_pattern for the constructs used here."""
    out, i, incl = [], 0, False
    while i < len(pat):
        c = pat[i]
        if c == "\\":
            if i + 1 == len(pat):
                raise ValueError
            d = pat[i + 1]
            if d in "123456789" and not back_references:
                raise ValueError
            base = {"i": "A-Za-z_:", "c": "-A-Za-z0-9_:."}.get(d)
            out.append((base if incl else f"[{base}]") if base else c + d)
            i += 2
            continue
        if incl:
            incl = c != "]"
            out.append(c)
        elif c == "[":
            incl = True
            out.append(c)
        elif c in "^$" and not anchors:
            out.append("\\" + c)
        elif c == "?" and i and pat[i - 1] in "*+?}" and not lazy_quantifiers:
            raise ValueError
        elif c == "." :
            out.append("[^\\r\\n]")
        else:
            out.append(c)
        i += 1
    r = "".join(out)
    return r if anchors else f"^(?:{r})$(?!\\n\\Z)"


def b_translate(I, a, kw, node):
    names = ["pattern", "flags", "xsd_version", "back_references", "lazy_quantifiers", "anchors"]
    d = dict(zip(names, a))
    d.update(kw)
    if not isinstance(d["pattern"], K):
        return Sym(("xsd-regex",) + tuple((k, term_of(v)) for k, v in sorted(d.items())), {"str"})
    try:
        r = xsd_regex(d["pattern"].val, *[I.truth(d.get(k, TRUE)) for k in names[3:]])
        _re.compile(r)
        return K(r)
    except (ValueError, _re.error):
        I.raise_ext("elementpath.RegexError", node=node)


def b_b64decode(I, a, kw, node):
    import base64
    import binascii
    v = a[0]
    if isinstance(v, K) and isinstance(v.val, (str, bytes)):
        try:
            return K(base64.b64decode(v.val, validate=I.truth(kw.get("validate", FALSE))))
        except binascii.Error:
            I.raise_ext("binascii.Error", node=node)
        except ValueError:
            I.raise_ext("builtins.ValueError", node=node)
    if not isinstance(v, Sym) or not I.narrow(v, {"str", "bytes"}, "ascii"):
        I.raise_ext("builtins.TypeError", node=node)
    if I.branch(("not-ascii", v.term)):
        I.raise_ext("builtins.ValueError", node=node)
    if I.branch(("not-base64", v.term)):
        I.raise_ext("binascii.Error", node=node)
    return Sym(("b64decode", v.term), {"bytes"})


def b_b64encode(I, a, kw, node):
    import base64
    v = a[0]
    if isinstance(v, K) and isinstance(v.val, bytes):
        return K(base64.b64encode(v.val))
    if not isinstance(v, Sym) or not I.narrow(v, {"bytes"}, "bytes"):
        I.raise_ext("builtins.TypeError", node=node)
    return Sym(("b64encode", v.term), {"bytes"})


ELEMENT = "xml.etree.ElementTree.Element"


def new_element(I, tag, text=None, attrib=None, children=()):
    """Abstract xml.etree element: a list of children with tag, text and attributes."""
    o = Obj(Ext(ELEMENT), I.fresh_id("element"), {}, payload=Lst("list", list(children)))
    o.fields.update(tag=tag if isinstance(tag, V) else K(tag), text=text if isinstance(text, V) else K(text), tail=NONE,
                    attrib=Dct([(K(k), K(v)) for k, v in (attrib or {}).items()]))
    kids = lambda path: [c for c in o.payload.items if I.eq(I.getattr_(c, "tag"), path)]

    def arg(a, kw, i, name, dflt=NONE):
        return I.force(a[i]) if len(a) > i else I.force(kw.get(name, dflt))

    def simple(p):
        if not isinstance(p, K) or not isinstance(p.val, str) or p.val.startswith((".", "/", "*")) or "[" in p.val or "/" in p.val.rpartition("}")[2]:
            from .interp import Unsupported
            raise Unsupported("element path expression")
        return p

    def find(I, a, kw):
        r = kids(simple(arg(a, kw, 0, "path")))
        return r[0] if r else NONE

    def findtext(I, a, kw):
        r = kids(simple(arg(a, kw, 0, "path")))
        if not r:
            return arg(a, kw, 1, "default")
        t = I.force(I.getattr_(r[0], "text"))
        return K("") if isinstance(t, K) and t.val is None else t
    o.fields["find"] = Native(find, "find")
    o.fields["findtext"] = Native(findtext, "findtext")
    o.fields["findall"] = Native(lambda I, a, kw: Lst("list", kids(simple(arg(a, kw, 0, "path")))), "findall")
    for m in ("get", "items", "keys"):
        o.fields[m] = Native(lambda I, a, kw, m=m: I.call(I.getattr_(o.fields["attrib"], m), a, kw), m)
    o.fields["set"] = Native(lambda I, a, kw: I.dct_set(o.fields["attrib"], a[0], a[1]) or NONE, "set")
    return o


def b_element(I, a, kw, node):
    e = new_element(I, a[0])
    if len(a) > 1 or "attrib" in kw:
        fill_dict(I, e.fields["attrib"], a[1] if len(a) > 1 else kw["attrib"], node)
    for k, v in kw.items():
        if k != "attrib":
            I.dct_set(e.fields["attrib"], K(k), v)
    return e


def b_subelement(I, a, kw, node):
    e = b_element(I, a[1:], kw, node)
    I.force(a[0]).payload.items.append(e)
    return e


def b_max_dt(I, a, kw, node):
    return Sym(("maxdate",))


EXT = {
    "isinstance": b_isinstance, "issubclass": b_issubclass, "len": b_len, "str": b_str, "repr": b_repr,
    "int": conv("int", frozenset({"int", "bool", "float", "Decimal"}), "builtins.ValueError", frozenset({"int"})),
    "float": conv("float", frozenset({"int", "bool", "float", "Decimal"}), "builtins.ValueError", frozenset({"float"})),
    "decimal.Decimal": conv("Decimal", frozenset({"int", "bool", "float", "Decimal", "tuple"}), "decimal.InvalidOperation", frozenset({"Decimal"})),
    "bool": b_bool, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_frozenset, "dict": b_dict,
    "collections.deque": b_deque, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "reversed": b_reversed,
    "sorted": b_sorted, "max": b_minmax(True), "min": b_minmax(False), "sum": b_sum, "any": b_any, "all": b_all,
    "map": b_map, "filter": b_filter, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr,
    "type": b_type, "print": b_print, "next": b_next, "iter": b_iter, "hash": b_hash, "abs": b_abs,
    "round": b_round, "object": b_object, "typing.cast": b_cast, "callable": b_callable, "id": b_id, "open": b_open,
    "math.ceil": math_f("ceil", math.ceil), "math.floor": math_f("floor", math.floor),
    "math.isnan": math_f("isnan", math.isnan), "math.copysign": math_f("copysign", math.copysign),
    ELEMENT: b_element, "xml.etree.ElementTree.SubElement": b_subelement,
    "datetime.datetime.now": b_now, "datetime.now": b_now, "itertools.product": b_product, "itertools.chain": b_chain,
    "base64.b64decode": b_b64decode, "base64.b64encode": b_b64encode, "re.compile": b_compile, "re.sub": b_resub, "elementpath.translate_pattern": b_translate, "elementpath.regex.translate_pattern": b_translate, "collections.OrderedDict": b_dict,
}


# ---------------------------------------------------------------------------
STR_RET = {"lower": "str", "upper": "str", "strip": "str", "lstrip": "str", "rstrip": "str", "replace": "str",
           "format": "str", "title": "str", "capitalize": "str", "translate": "str", "ljust": "str", "rjust": "str", "zfill": "str",
           "join": "str", "expandtabs": "str", "casefold": "str", "removeprefix": "str", "removesuffix": "str", "center": "str",
           "split": "list", "rsplit": "list", "splitlines": "list", "encode": "bytes",
           "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isalpha": "bool", "islower": "bool", "isupper": "bool",
           "isspace": "bool", "isalnum": "bool", "isnumeric": "bool", "isdecimal": "bool", "isidentifier": "bool",
           "find": "int", "rfind": "int", "index": "int", "rindex": "int", "count": "int"}


def call_method(I, m, args, kw, node):
    recv, name = m.recv, m.name
    args = [I.force(a) for a in args]
    if isinstance(recv, Obj):
        if recv.payload is not None and (m.base in (None, "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set", "collections.deque", "builtins.object", "collections.OrderedDict")):
            if name == "__init__":
                if m.base == "builtins.object":
                    return NONE
                if isinstance(recv.payload, Dct):
                    recv.payload.entries = []
                    recv.payload.rest = False
                ext_init(I, recv, args, kw, node)
                return NONE
            if name in ("__eq__", "__ne__", "__hash__") and m.base == "builtins.object":
                return obj_default(I, recv, name, args, node)
            return cont_method(I, recv.payload, name, args, kw, node, recv)
        if isinstance(recv.cls, Ext) or m.base is not None or True:
            b = m.base
            if name == "__init__":
                if b and ext_class(b) is not None and issubclass(ext_class(b), BaseException):
                    recv.fields["args"] = Lst("tuple", args)
                elif b and opaque_base(b):
                    recv.lazy = True
                elif (args or kw) and b == "builtins.object":
                    I.event("arity", getattr(recv.cls, "name", "?"), node=node)
                    I.raise_ext("builtins.TypeError", node=node)
                return NONE
            if name in ("__str__", "__repr__"):
                a = recv.fields.get("args")
                if isinstance(a, Lst) and len(a.items) == 1:
                    return I.str_(a.items[0])
                return Sym(("strof", term_of(recv)), {"str"})
            if name in ("__eq__", "__ne__", "__hash__"):
                return obj_default(I, recv, name, args, node)
            if name == "__setattr__":
                recv.fields[args[0].val] = args[1]
                return NONE
            if name in ("with_traceback", "add_note"):
                return recv
            t = ("m", name, term_of(recv)) + tuple(term_of(x) for x in args)
            I.event("opaque", t, node=node)
            return Sym(t)
    if isinstance(recv, (Lst, Dct)):
        return cont_method(I, recv, name, args, kw, node, recv)
    if isinstance(recv, K):
        return k_method(I, recv, name, args, kw, node)
    if isinstance(recv, Sym):
        return sym_method(I, recv, name, args, kw, node)
    from .interp import Unsupported
    raise Unsupported(f"method {name} of {recv!r}")


def obj_default(I, recv, name, args, node):
    if name == "__eq__":
        return kbool(args[0] is recv)
    if name == "__ne__":
        return kbool(args[0] is not recv)
    return Sym(("hash", ("obj", recv.name)), {"int"})


def k_method(I, recv, name, args, kw, node):
    v = recv.val
    if name == "__hash__":
        return hash_of(I, recv, node)
    if name == "__str__":
        return K(str(v))
    if name in ("__eq__",):
        return kbool(I.eq(recv, args[0]))
    if isinstance(v, _re.Pattern) and name in ("sub", "subn") and len(args) >= 2 and not isinstance(args[0], K) and all(isinstance(x, K) for x in args[1:]) and all(isinstance(x, K) for x in kw.values()):
        return re_sub(I, v, args[0], args[1].val, args[2].val if len(args) > 2 else kw["count"].val if "count" in kw else 0, node, name == "subn")
    if isinstance(v, _re.Pattern) and name == "finditer" and all(isinstance(x, K) for x in args):
        return Lst("iter", [K(m) for m in v.finditer(*[x.val for x in args])])
    if isinstance(v, str) and name == "join":
        items = I.iterate(args[0], node)
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(recv)
            if isinstance(x, K) and not isinstance(x.val, str):
                I.raise_ext("builtins.TypeError", node=node)
            if isinstance(x, Sym):
                if I.strict(x) and not I.narrow(x, frozenset({"str", "obj"}), "str"):
                    I.raise_ext("builtins.TypeError", node=node)
                if "str" in I.kinds(x):
                    I.kindmap[x.term] = frozenset({"str"})
            elif isinstance(x, (Lst, Dct, Obj)):
                I.raise_ext("builtins.TypeError", node=node)
            parts.append(x)
        return I.cat(parts)
    if isinstance(v, str) and name == "format":
        return fmt(I, v, args, kw, node)
    try:
        plain = all(isinstance(a, K) or isinstance(v, str) and name in ("translate", "startswith", "endswith", "maketrans") for a in args) \
            and all(isinstance(a, K) for a in kw.values())
        vals = [unlift(a) for a in args] if plain else None
    except LookupError:
        vals = None
    if vals is not None:
        try:
            r = getattr(v, name)(*vals, **{k: a.val for k, a in kw.items()})
        except ValueError as e:
            I.raise_ext("builtins." + type(e).__name__, node=node)
        except (TypeError, IndexError, KeyError, AttributeError) as e:
            I.raise_ext("builtins." + type(e).__name__, node=node)
        except decimal.InvalidOperation:
            I.raise_ext("decimal.InvalidOperation", node=node)
        return lift(r)
    if isinstance(v, str) and name in ("startswith", "endswith") and args and isinstance(args[0], Lst):
        return kbool(any(isinstance(x, K) and getattr(v, name)(x.val) for x in args[0].items))
    t = ("m", name, term_of(recv)) + tuple(term_of(a) for a in args)
    rk = STR_RET.get(name) if isinstance(v, str) else None
    return Sym(t, {rk} if rk else None)


def unlift(v):
    """Concrete value of a constant abstract value; LookupError otherwise."""
    if isinstance(v, K):
        return v.val
    if isinstance(v, Lst) and v.kind in LSTTYPE:
        return LSTTYPE[v.kind](unlift(x) for x in v.items)
    if isinstance(v, Dct) and not v.rest:
        return {unlift(k): unlift(x) for k, x in v.entries}
    raise LookupError


def lift(r):
    if isinstance(r, list):
        return Lst("list", [lift(x) for x in r])
    if isinstance(r, tuple):
        return Lst("tuple", [lift(x) for x in r])
    if isinstance(r, dict):
        return Dct([(lift(k), lift(v)) for k, v in r.items()])
    return K(r)


def fmt(I, s, args, kw, node):
    import string
    parts = []
    auto = 0
    try:
        for lit, fld, spec, cv in string.Formatter().parse(s):
            if lit:
                parts.append(K(lit))
            if fld is None:
                continue
            if fld == "":
                x = args[auto]
                auto += 1
            elif fld.isdigit():
                x = args[int(fld)]
            else:
                x = kw[fld]
            if spec:
                if isinstance(x, K):
                    parts.append(K(format(x.val, spec)))
                else:
                    parts.append(Sym(("format", term_of(x), ("k", "str", repr(spec))), {"str"}))
            elif cv == "r":
                parts.append(I.repr_(x))
            else:
                parts.append(I.str_(x))
    except (IndexError, KeyError):
        I.raise_ext("builtins.IndexError", node=node)
    return I.cat(parts)


def sym_method(I, recv, name, args, kw, node):
    ks = I.kinds(recv)
    t = ("m", name, recv.term) + tuple(term_of(a) for a in args) + tuple((k, term_of(v)) for k, v in sorted(kw.items()) if k != "**")
    if name == "__hash__":
        return hash_of(I, recv, node)
    if name == "__str__":
        return I.str_(recv)
    if name == "__eq__":
        return kbool(I.eq(recv, args[0]))
    limited = ks != ALL_KINDS
    if name in ("append", "extend", "insert", "remove", "clear", "update", "setdefault", "pop", "popitem",
                "add", "discard", "sort", "reverse", "appendleft", "popleft", "extendleft") and not ks <= {"str", "bytes", "int", "float"}:
        I.event("mutate", recv, name, recv.label or "unknown", node=node)
        if name in ("pop", "popleft", "setdefault"):
            if name == "setdefault" and len(args) == 2:
                if I.branch(("in", term_of(args[0]), recv.term)):
                    return Sym(("getitem", recv.term, term_of(args[0])))
                return args[1]
            return Sym(t + (I.fresh_id(),), label=recv.label)
        return NONE
    if name in ("partition", "rpartition") and len(args) == 1:
        if isinstance(args[0], K) and args[0].val and I.branch(("in", term_of(args[0]), recv.term)):
            h = Sym(("before" if name == "partition" else "rbefore", recv.term, term_of(args[0])), {"str"})
            tl = Sym(("after" if name == "partition" else "rafter", recv.term, term_of(args[0])), {"str"})
            return Lst("tuple", [h, args[0], tl])
        me = Sym(recv.term, {"str"})
        return Lst("tuple", [me, K(""), K("")] if name == "partition" else [K(""), K(""), me])
    if name == "get" and limited and "obj" not in ks or name == "get" and ks == ALL_KINDS and False:
        if I.sym_has(recv, args[0]):
            return Sym(("getitem", recv.term, term_of(args[0])))
        return args[1] if len(args) > 1 else NONE
    if name in ("items", "keys", "values"):
        its = I.iter_sym(Sym(recv.term), node)
        if name == "keys":
            return Lst("list", its)
        vals = [Sym(("getitem", recv.term, k.term)) for k in its]
        if name == "values":
            return Lst("list", vals)
        return Lst("list", [Lst("tuple", [k, v]) for k, v in zip(its, vals)])
    if name == "copy":
        return Sym(("copy", recv.term), ks, label="fresh")
    if name in ("strip", "lstrip", "rstrip") and isinstance(recv.term, tuple) and recv.term[0] == "m" and recv.term[1] == name and recv.term[3:] == t[3:]:
        return recv
    if name in ("encode", "decode") and limited and I.cfg.strict:
        if I.branch(("raises", name, t)):
            I.raise_ext("builtins.UnicodeError", node=node)
    if name == "join":
        items = I.iterate(args[0], node)
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(recv)
            parts.append(x)
        return I.cat(parts)
    rk = STR_RET.get(name)
    if rk and (ks <= {"str"} or not limited):
        if name in ("index", "rindex") and ks <= {"str"}:
            if not I.branch(("in", term_of(args[0]), recv.term)):
                I.raise_ext("builtins.ValueError", node=node)
        if name == "split" and I.cfg.strict is not None and len(args) == 1 and isinstance(args[0], K) and ks <= {"str"}:
            r = Sym(t, {"list"})
            I.assume.setdefault(("nonempty-list", t), True)
            return r
        return Sym(t, {rk})
    I.event("opaque", t, node=node)
    return Sym(t)


MUT_LIST = {"append", "extend", "insert", "remove", "clear", "pop", "sort", "reverse", "appendleft", "popleft",
            "extendleft", "add", "discard", "update", "rotate", "__setitem__", "__delitem__", "__iadd__",
            "difference_update", "intersection_update", "symmetric_difference_update"}
MUT_DICT = {"update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__"}


def cont_method(I, c, name, args, kw, node, owner):
    from .interp import Unsupported
    if isinstance(c, Lst):
        L = c.items
        if name in MUT_LIST:
            if name == "pop" and not L or name == "popleft" and not L:
                I.raise_ext("builtins.IndexError" if c.kind != "set" else "builtins.KeyError", node=node)
            I.mutate(owner, name, node)
        if name == "append":
            L.append(args[0])
            return NONE
        if name == "appendleft":
            L.insert(0, args[0])
            return NONE
        if name in ("extend", "__iadd__"):
            L.extend(I.iterate(args[0], node))
            return NONE if name == "extend" else owner
        if name == "extendleft":
            for x in I.iterate(args[0], node):
                L.insert(0, x)
            return NONE
        if name == "insert":
            if isinstance(args[0], K):
                L.insert(args[0].val, args[1])
                return NONE
            raise Unsupported("insert with unknown index")
        if name == "pop":
            i = args[0].val if args and isinstance(args[0], K) else -1
            if args and not isinstance(args[0], K):
                raise Unsupported("pop with unknown index")
            try:
                if c.kind == "set":
                    x = I.setseq(c, node)[0]
                    L[:] = [y for y in L if y is not x]
                    return I.force(x)
                return I.force(L.pop(i))
            except IndexError:
                I.raise_ext("builtins.IndexError", node=node)
        if name == "popleft":
            return I.force(L.pop(0))
        if name in ("remove", "discard"):
            for i, x in enumerate(L):
                if I.eq(x, args[0]):
                    del L[i]
                    return NONE
            if name == "remove":
                I.raise_ext("builtins.KeyError" if c.kind == "set" else "builtins.ValueError", node=node)
            return NONE
        if name == "clear":
            L.clear()
            return NONE
        if name == "reverse":
            L.reverse()
            return NONE
        if name == "rotate":
            raise Unsupported("rotate")
        if name == "sort":
            L[:] = sort_items(I, L, kw, node)
            return NONE
        if name == "copy":
            return Lst(c.kind, list(L), site=I.loc(node))
        if name == "add":
            if not any(I.eq(x, args[0]) for x in L):
                L.append(args[0])
            return NONE
        if name == "update":
            for a in args:
                for y in I.iterate(a, node):
                    if not any(I.eq(x, y) for x in L):
                        L.append(y)
            return NONE
        if name in ("union", "__or__"):
            out = list(L)
            for a in args:
                out += I.iterate(a, node)
            return I.mkset(out, c.kind if c.kind in ("set", "frozenset") else "set")
        if name in ("intersection", "__and__"):
            o = [I.iterate(a, node) for a in args]
            return Lst(c.kind, [x for x in L if all(any(I.eq(x, y) for y in s) for s in o)])
        if name in ("difference", "__sub__"):
            o = [y for a in args for y in I.iterate(a, node)]
            return Lst(c.kind, [x for x in L if not any(I.eq(x, y) for y in o)])
        if name in ("difference_update", "intersection_update"):
            o = [y for a in args for y in I.iterate(a, node)]
            keep = name[0] == "i"
            L[:] = [x for x in L if any(I.eq(x, y) for y in o) == keep]
            return NONE
        if name in ("issubset", "__le__"):
            o = I.iterate(args[0], node)
            return kbool(all(any(I.eq(x, y) for y in o) for x in L))
        if name == "issuperset":
            return kbool(all(any(I.eq(x, y) for y in L) for x in I.iterate(args[0], node)))
        if name == "isdisjoint":
            o = I.iterate(args[0], node)
            return kbool(not any(any(I.eq(x, y) for y in o) for x in L))
        if name == "index":
            for i, x in enumerate(L):
                if I.eq(x, args[0]):
                    return K(i)
            I.raise_ext("builtins.ValueError", node=node)
        if name == "count":
            return K(sum(1 for x in L if I.eq(x, args[0])))
        if name == "__getitem__":
            return I.getitem(c, args[0], node)
        if name == "__setitem__":
            I.setitem(c, args[0], args[1], node)
            return NONE
        if name == "__delitem__":
            I.delitem(c, args[0], node)
            return NONE
        if name == "__contains__":
            return kbool(I.contains(c, args[0], node))
        if name == "__len__":
            return K(len(L))
        if name == "__iter__":
            return Lst("iter", list(L))
        if name == "__reversed__":
            return Lst("iter", list(reversed(L)))
        if name == "__add__":
            o = args[0]
            o = o.payload if isinstance(o, Obj) and o.payload is not None else o
            if isinstance(o, Lst):
                return Lst(c.kind, L + o.items)
        if name == "__eq__":
            return kbool(I.eq(c, args[0].payload if isinstance(args[0], Obj) and args[0].payload is not None else args[0]))
        if name == "__ne__":
            return kbool(not I.eq(c, args[0].payload if isinstance(args[0], Obj) and args[0].payload is not None else args[0]))
        if name == "__hash__":
            return hash_of(I, c, node)
        if name in ("__str__", "__repr__"):
            return Sym(("strof", term_of(c)), {"str"})
        if name == "__next__":
            return b_next(I, [c], {}, node)
        raise Unsupported(f"list method {name}")
    d = c
    if name in MUT_DICT:
        if name == "setdefault":
            v = I.dct_get(d, args[0])
            if v is not None:
                return I.force(v)
            I.mutate(owner, name, node)
            I.dct_set(d, args[0], args[1] if len(args) > 1 else NONE)
            return args[1] if len(args) > 1 else NONE
        if name == "pop":
            v = I.dct_get(d, args[0])
            if v is None:
                if len(args) > 1:
                    return args[1]
                I.raise_ext("builtins.KeyError", args[0], node=node)
        I.mutate(owner, name, node)
    if name == "get":
        v = I.dct_get(d, args[0])
        if v is None:
            return args[1] if len(args) > 1 else NONE
        return I.force(v)
    if name == "pop":
        v = I.dct_get(d, args[0])
        for i, e in enumerate(d.entries):
            if e[0] is args[0] or I.eq(e[0], args[0]):
                del d.entries[i]
                break
        return I.force(v)
    if name == "popitem":
        if not d.entries:
            I.raise_ext("builtins.KeyError", node=node)
        return Lst("tuple", d.entries.pop())
    if name == "clear":
        d.entries = []
        d.rest = False
        return NONE
    if name == "update":
        if args:
            fill_dict(I, d, args[0], node)
        for k, v in kw.items():
            I.dct_set(d, K(k), v)
        return NONE
    if name == "keys":
        return Lst("set", I.dict_keys(d), ordered=True)
    if name == "values":
        I.dict_keys(d)
        return Lst("list", [I.force(e[1]) for e in d.entries])
    if name == "items":
        return Lst("list", [Lst("tuple", [k, I.force(v)]) for k, v in I.dict_items(d)])
    if name == "copy":
        n = Dct(d.entries, d.rest, name=d.name, site=I.loc(node))
        return n
    if name == "__getitem__":
        return I.getitem(d, args[0], node)
    if name == "__setitem__":
        I.dct_set(d, args[0], args[1])
        return NONE
    if name == "__delitem__":
        v = I.dct_get(d, args[0])
        if v is None:
            I.raise_ext("builtins.KeyError", args[0], node=node)
        d.entries[:] = [e for e in d.entries if not (e[0] is args[0] or I.eq(e[0], args[0]))]
        return NONE
    if name == "__contains__":
        return kbool(I.dct_has(d, args[0]))
    if name == "__len__":
        return b_len(I, [d], {}, node)
    if name == "__iter__":
        return Lst("iter", I.dict_keys(d))
    if name == "__eq__":
        return kbool(I.eq(d, args[0].payload if isinstance(args[0], Obj) and args[0].payload is not None else args[0]))
    if name == "__ne__":
        return kbool(not I.eq(d, args[0].payload if isinstance(args[0], Obj) and args[0].payload is not None else args[0]))
    if name == "__hash__":
        I.raise_ext("builtins.TypeError", K("unhashable"), node=node)
    if name in ("__str__", "__repr__"):
        return Sym(("strof", term_of(d)), {"str"})
    if name == "__or__":
        n = Dct(d.entries, d.rest, name=d.name)
        fill_dict(I, n, args[0], node)
        return n
    from .interp import Unsupported
    raise Unsupported(f"dict method {name}")
