"""Worlds and helpers shared by the rules."""
from ..world import S, module, leaf, World, freeze, snapshot, changed, reach
from ..values import *
from ..interp import Config, AbsRaise, Unsupported, Cut, fmt_loc, explore

_cache = {}


def world(ck, name, make):
    k = (id(ck.p), name)
    if k not in _cache:
        _cache[k] = make(ck.p)
    return _cache[k]


def main_module():
    return module(
        "m",
        S("identity", "base"),
        S("identity", "d1", S("base", "base")),
        S("identity", "d2", S("base", "d1")),
        S("container", "c",
          leaf("a"), leaf("b"),
          S("list", "l", S("key", "k"), leaf("k"), leaf("v"),
            S("leaf-list", "il", S("type", "string")),
            S("container", "ic", leaf("z"))),
          S("leaf-list", "ll", S("type", "string")),
          S("container", "d", leaf("x"), leaf("y", "string", S("default", "why"))),
          S("container", "p", S("presence", "yes"), leaf("q")),
          S("list", "kl", S("config", "false"), leaf("u"), leaf("w"))),
        S("container", "t", leaf("one"), leaf("two"), leaf("n", "uint8")),
        S("leaf-list", "top", S("type", "string")),
    )


def main_world(ck):
    return world(ck, "main", lambda p: World(p, [main_module()]))


def full_module():
    return module(
        "m",
        S("identity", "base"),
        S("identity", "d1", S("base", "base")),
        S("container", "c",
          leaf("a"), leaf("b", "string", S("default", "bee")),
          S("list", "l", S("key", "k"), S("unique", "v"), S("max-elements", "5"), leaf("k"), leaf("v"),
            leaf("dv", "string", S("default", "dvd")),
            S("container", "ic", leaf("z", "string", S("default", "zed")))),
          S("leaf-list", "ll", S("type", "string"), S("default", "x"), S("default", "y")),
          S("choice", "ch", S("default", "c1"),
            S("case", "c1", leaf("c1a", "string", S("default", "q"))),
            S("case", "c2", leaf("c2a"))),
          leaf("lr", S("type", "leafref", S("path", "../a"))),
          leaf("ir", S("type", "identityref", S("base", "base")), S("default", "d1")),
          leaf("un", S("type", "union", S("type", "uint8"), S("type", "string"))),
          leaf("w", "string", S("when", "../a = 'x'")),
          S("container", "d", S("must", "x or y"), leaf("x"), leaf("y")),
          S("container", "p", S("presence", "yes"), leaf("q", "string", S("mandatory", "true"))),
          S("anydata", "ad"),
          S("list", "kl", S("config", "false"), leaf("u"))),
        S("rpc", "op", S("input", leaf("i1")), S("output", leaf("o1"))),
        S("notification", "nt", leaf("n1")),
    )


def full_world(ck):
    return world(ck, "full", lambda p: World(p, [full_module()]))


def seq(I, v):
    """Items of an abstract sequence value."""
    v = I.force(v)
    if isinstance(v, Obj) and v.payload is not None:
        v = v.payload
    if isinstance(v, Lst):
        return list(v.items)
    raise Unsupported(f"sequence expected, got {v!r}")


def entries(I, v):
    v = I.force(v)
    if isinstance(v, Obj) and v.payload is not None:
        v = v.payload
    if isinstance(v, Dct) and not v.rest:
        return [(k.val if isinstance(k, K) else term_of(k), x) for k, x in v.entries]
    raise Unsupported(f"mapping expected, got {v!r}")


def same(a, b):
    """Same abstract value: identical object, or equal term."""
    return a is b or term_of(a) == term_of(b)


def same_seq(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def names(xs):
    return "[" + ", ".join(show(term_of(x)) for x in xs) + "]"
