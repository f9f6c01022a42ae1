"""C01: instance operations never alter the tree they start from.

Rule: after interpreting an operation, no abstract object reachable from the
starting instances or from the argument values has different content
(fields, list items, dict entries, by identity).  Filling an underscore cache
attribute that was None is the one admitted write.
"""
from .common import *
from .ops import run_ops

SCHEMA = ("SchemaNode", "SchemaData", "DataModel", "DataType", "Expr", "Annotation", "ModuleData", "Statement",
          "SchemaPattern", "Must", "Restriction", "SchemaContext")


def is_schema(p, o):
    return isinstance(o, Obj) and isinstance(o.cls, Cls) and any(
        p.issub(o.cls, p.classes[n]) for n in SCHEMA if n in p.classes)


def data_graph(p, roots):
    """Objects reachable without passing through the schema."""
    seen = {}
    todo = [(r, f"#{i}") for i, r in enumerate(roots)]
    while todo:
        v, path = todo.pop()
        if not isinstance(v, (Obj, Lst, Dct)) or id(v) in seen or is_schema(p, v):
            continue
        seen[id(v)] = (v, path)
        if isinstance(v, Obj):
            todo += [(x, f"{path}.{k}") for k, x in v.fields.items()]
            if v.payload is not None:
                todo.append((v.payload, path))
        elif isinstance(v, Lst):
            todo += [(x, f"{path}[{i}]") for i, x in enumerate(v.items)]
        else:
            todo += [(x, f"{path}[{show(term_of(k))}]") for k, x in v.entries]
    return seen


def content(v):
    from ..world import cid
    if isinstance(v, Obj):
        return {k: cid(x) for k, x in v.fields.items()}
    if isinstance(v, Lst):
        return [cid(x) for x in v.items]
    return [(cid(k), cid(x)) for k, x in v.entries]


def diff(v, old, new):
    if isinstance(v, Obj):
        for k in set(old) | set(new):
            if old.get(k) != new.get(k):
                if k.startswith("_") and (k not in old or old[k] == term_of(NONE)):
                    continue
                return f"attribute {k} changed"
        return None
    if old != new:
        return f"content changed from {len(old)} to {len(new)} items" if len(old) != len(new) else "content changed"
    return None


def judge(x, name, focus, fn, insts):
    p = x.p
    ref = insts[-1]
    g = data_graph(p, insts)
    before = {i: (v, path, content(v)) for i, (v, path) in g.items()}
    for v, path in g.values():
        v.label = "shared"
    n0 = len(x.I.events)
    r = x.attempt(lambda: fn(x, ref))
    cons = f"InstanceNode.{name.split(';')[-1].split('(')[0].split()[0]}"
    bad = []
    for v, path, old in before.values():
        d = diff(v, old, content(v))
        if d:
            loc = next((e.loc for e in x.I.events[n0:] if e.kind in ("mutate", "setattr") and e.data and
                        (e.data[0] is v or getattr(v, "owner", None) is e.data[0])), None)
            bad.append((path, d, loc))
    where = bad[0][2] if bad and bad[0][2] else None
    fnname = where[1] if where else cons
    x.expect(not bad, "no-write-to-original", fnname if bad else cons,
             (f"{name} at {'/'.join(map(str, focus)) or '/'}: object {bad[0][0]} reachable from the original instance: {bad[0][1]}") if bad else "", where)


def run(ck):
    ck.floor = 70
    run_ops(ck, judge)
