"""Reference semantics of XPath 1.0 values, written from the recommendation.

Values: float, str, bool and Nodes (a list of string-values)."""
import math
import re

NUM = re.compile(r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*")
NAN = float("nan")


class Nodes(list):
    pass


class TypeErr(Exception):
    pass


def number(v):
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, float):
        return v
    if isinstance(v, Nodes):
        v = string(v)
    m = NUM.fullmatch(v)
    return float(m[1]) if m else NAN


def string(v):
    if isinstance(v, Nodes):
        return v[0] if v else ""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        if v == int(v):
            return str(int(v))
        from decimal import Decimal
        return format(Decimal(repr(v)), "f")
    return v


def boolean(v):
    if isinstance(v, float):
        return not (v == 0 or math.isnan(v))
    return bool(v) if isinstance(v, bool) else len(v) > 0


CMP = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def compare(op, a, b):
    f = CMP[op]
    na, nb = isinstance(a, Nodes), isinstance(b, Nodes)
    if na and nb:
        if op in ("=", "!="):
            return any(f(x, y) for x in a for y in b)
        return any(f(number(x), number(y)) for x in a for y in b)
    if na or nb:
        ns, o = (a, b) if na else (b, a)
        if isinstance(o, bool):
            x, y = boolean(a), boolean(b)
            return f(x, y)
        g = (lambda x, y: f(x, y)) if na else (lambda x, y: f(y, x))
        if isinstance(o, float) or op not in ("=", "!="):
            return any(g(number(x), number(o)) for x in ns)
        return any(g(x, o) for x in ns)
    if op in ("=", "!="):
        if isinstance(a, bool) or isinstance(b, bool):
            return f(boolean(a), boolean(b))
        if isinstance(a, float) or isinstance(b, float):
            return f(number(a), number(b))
        return f(a, b)
    return f(number(a), number(b))


def arith(op, a, b):
    a, b = number(a), number(b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "div":
        if b == 0:
            if a == 0 or math.isnan(a):
                return NAN
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    try:
        return math.fmod(a, b)
    except ValueError:
        return NAN


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, float):
        return math.isnan(x) and math.isnan(y) or x == y
    return x == y


def rnd(x):
    """XPath round(): half towards positive infinity."""
    if math.isnan(x) or math.isinf(x):
        return x
    f = math.floor(x)
    return float(f if x - f < 0.5 else f + 1)


def integral(f):
    return lambda v: (lambda x: x if math.isnan(x) or math.isinf(x) else float(f(x)))(number(v))


def substring(s, start, length=None):
    s, b = string(s), rnd(number(start))
    e = None if length is None else b + rnd(number(length))
    return "".join(c for i, c in enumerate(s, 1) if i >= b and (e is None or i < e))


def translate(s, a, b):
    s, a, b = string(s), string(a), string(b)
    m = {}
    for i, c in enumerate(a):
        if c not in m:
            m[c] = b[i] if i < len(b) else ""
    return "".join(m.get(c, c) for c in s)


def before(s, t):
    s, t = string(s), string(t)
    return s[:s.index(t)] if t in s else ""


def after(s, t):
    s, t = string(s), string(t)
    return s[s.index(t) + len(t):] if t in s else ""


def total(ns):
    return float(sum(number(x) for x in ns))


# name: (least, most arguments, positions that must be node-sets, result type, definition over converted values)
FUNCTIONS = {
    "boolean": (1, 1, (), bool, boolean), "not": (1, 1, (), bool, lambda v: not boolean(v)),
    "true": (0, 0, (), bool, lambda: True), "false": (0, 0, (), bool, lambda: False),
    "number": (0, 1, (), float, number), "string": (0, 1, (), str, string),
    "ceiling": (1, 1, (), float, integral(math.ceil)), "floor": (1, 1, (), float, integral(math.floor)), "round": (1, 1, (), float, integral(rnd)),
    "count": (1, 1, (0,), float, lambda n: float(len(n))), "sum": (1, 1, (0,), float, total),
    "concat": (2, None, (), str, lambda *a: "".join(map(string, a))),
    "contains": (2, 2, (), bool, lambda a, b: string(b) in string(a)),
    "starts-with": (2, 2, (), bool, lambda a, b: string(a).startswith(string(b))),
    "substring-before": (2, 2, (), str, before), "substring-after": (2, 2, (), str, after),
    "substring": (2, 3, (), str, substring), "string-length": (0, 1, (), float, lambda v: float(len(string(v)))),
    "normalize-space": (0, 1, (), str, lambda v: " ".join(x for x in re.split("[ \t\r\n]+", string(v)) if x)),
    "translate": (3, 3, (), str, translate),
    "name": (0, 1, (0,), str, None), "local-name": (0, 1, (0,), str, None),
    "last": (0, 0, (), float, None), "position": (0, 0, (), float, None), "current": (0, 0, (), Nodes, None),
    "deref": (1, 1, (0,), Nodes, None), "derived-from": (2, 2, (0,), bool, None), "derived-from-or-self": (2, 2, (0,), bool, None),
    "enum-value": (1, 1, (0,), float, None), "bit-is-set": (2, 2, (0,), bool, None), "re-match": (2, 2, (), bool, None),
}
