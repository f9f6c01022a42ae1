"""C46: timestamps tell when instance data were last modified.

datetime.now() is a clock that advances with every reading, so every time
stamp in a result can be attributed to the operation that created it.
Navigation must not create any; an edit must date everything it changed -
the edited node and what contains it - and nothing else."""
from .common import *
from .c11 import L

RAW = {"m:c": {"a": "x", "b": 5, "ll": ["p", "q", "r"], "e": {"z": "y"},
               "l": [{"k": "1", "j": 1, "n": [{"nk": "1", "x": "1"}, {"nk": "2"}]}, {"k": "2", "j": 2}, {"k": "3", "j": 3}]},
       "m:string": "s", "m:ad": {"p": {"q": 1}}}


def model(p):
    from ..world import S, leaf as sleaf, module
    return World(p, [module("m",
        S("container", "c", sleaf("a"), sleaf("b", "uint8"), S("leaf-list", "ll", S("type", "string"), S("ordered-by", "user")),
          S("container", "e", sleaf("z"), sleaf("w")), sleaf("new"), S("leaf", "df", S("type", "uint8"), S("default", "7")),
          S("list", "l", S("key", "k"), S("ordered-by", "user"), sleaf("k"), sleaf("j", "uint8"), sleaf("h"), S("list", "n", S("key", "nk"), sleaf("nk"), sleaf("x")))),
        S("container", "c2", sleaf("z")),
        sleaf("string"), S("anydata", "ad"))])


def rank(x, v):
    v = x.I.force(v)
    return v.rank if isinstance(v, Sym) and v.rank is not None else None


def structured(v):
    return isinstance(v, Obj) and v.payload is not None


def stamps(x, v, path=(), out=None):
    """Time stamp of every array and object in a value."""
    out = {} if out is None else out
    v = x.I.force(v)
    if structured(v):
        out[path] = rank(x, v.fields["timestamp"])
        if isinstance(v.payload, Lst):
            for i, e in enumerate(v.payload.items):
                stamps(x, e, path + (i,), out)
        else:
            for k, e in v.payload.entries:
                stamps(x, e, path + (x.I.force(k).val,), out)
    return out


def pathof(x, n):
    return tuple(x.I.force(i).val for i in seq(x.I, x.attr(n, "path")))


def setup(x):
    """A root instance all of whose arrays and objects have time stamps of
    their own, older than anything that follows; containing ones are younger."""
    r = x.call(x.sc.dm, "from_raw", L(RAW))
    v = x.I.force(x.attr(r, "value"))
    c = [0]

    def go(v):
        v = x.I.force(v)
        if structured(v):
            for e in v.payload.items if isinstance(v.payload, Lst) else [e for _, e in v.payload.entries]:
                go(e)
            c[0] += 1
            v.fields["timestamp"] = Sym(("old", c[0]), {"obj"}, rank=c[0])
    go(v)
    r.fields["timestamp"] = v.fields["timestamp"]
    return r


def walk(x, root, path):
    n = root
    for k in path:
        n = x.I.getitem(n, K(k))
    return n


def paths(v, path=()):
    yield path
    if isinstance(v, dict) and path != ("m:ad",):
        for k, e in v.items():
            yield from paths(e, path + (k,))
    elif isinstance(v, list):
        for i, e in enumerate(v):
            yield from paths(e, path + (i,))


def neighbours(x, n, at):
    """Nodes that can be reached by one move."""
    v = x.I.force(x.attr(n, "value"))
    if at:
        yield "up", lambda: x.call(n, "up")
        yield "top", lambda: x.call(n, "top")
        if isinstance(at[-1], int):
            yield "next", lambda: x.call(n, "next")
            yield "previous", lambda: x.call(n, "previous")
        else:
            up = walk_raw(at[:-1])
            for k in up:
                if k != at[-1] and isinstance(up[k], (dict, list, str)):
                    yield f"sibling {k}", lambda k=k: x.call(n, "sibling", K(k))
    if structured(v) and at != ("m:ad",):
        ks = range(len(v.payload.items)) if isinstance(v.payload, Lst) else [x.I.force(k).val for k, _ in v.payload.entries]
        for k in ks:
            yield f"[{k!r}]", lambda k=k: x.I.getitem(n, K(k))


def walk_raw(path):
    v = RAW
    for k in path:
        v = v[k]
    return v


def navigation(x):
    root = setup(x)
    orig = stamps(x, x.attr(root, "value"))
    old = max(orig.values())

    def look(n, how):
        at = pathof(x, n)
        r = rank(x, x.attr(n, "timestamp"))
        cons = how[-1].split()[0].partition("[")[0] or "__getitem__"
        cons = {"up": "InstanceNode.up", "top": "InstanceNode.top", "next": "ArrayEntry.next", "previous": "ArrayEntry.previous", "sibling": "ObjectMember.sibling"}.get(cons, "InstanceNode." + cons)
        x.expect(r is not None and r <= old, "navigation-keeps-timestamp", cons, f"{'.'.join(how)} gives a node with a timestamp that no modification has, namely that of the move")
        for p, t in stamps(x, x.attr(n, "value"), at).items():
            x.expect(t == orig[p] if p in orig else False, "navigation-keeps-timestamp", cons, f"after {'.'.join(how)} the value at {p} has {'the time of the move' if t and t > old else 'another timestamp'}")
        low = max([t for p, t in orig.items() if p[:len(at)] == at] or [0])
        x.expect(r is not None and r >= low, "timestamp-not-older-than-content", cons, f"{'.'.join(how)} gives a node with a timestamp older than its content")
        return at

    for start in paths(RAW):
        n = walk(x, root, start)
        how0 = ["root"] + [f"[{k!r}]" for k in start]
        at = look(n, how0)
        for w1, f1 in neighbours(x, n, at):
            r = x.attempt(f1)
            if r[0] != "ok":
                continue
            a1 = look(r[1], how0 + [w1])
            for w2, f2 in neighbours(x, r[1], a1):
                r2 = x.attempt(f2)
                if r2[0] == "ok":
                    look(r2[1], how0 + [w1, w2])
        if at:
            t = x.call(n, "top")
            for back in list(paths(RAW))[::5]:
                look(walk(x, t, back), how0 + ["top()"] + [f"[{k!r}]" for k in back])
    for q in ("/m:c/l=1/n=2/nk", "/m:c/ll=q", "/m:c/e"):
        ir = x.call(x.sc.dm, "parse_resource_id", K(q))
        look(x.call(root, "goto", ir), ["root", f"goto {q}"])
        v = x.I.force(x.call(root, "peek", ir))
    x.expect(stamps(x, x.attr(root, "value")) == orig, "navigation-keeps-timestamp", "InstanceNode.goto", "navigation changed timestamps of the tree it started from")
    for q in ("validate", "raw_value", "json_pointer", "to_xml"):
        x.call(root if q != "to_xml" else walk(x, root, ("m:c",)), q)
        x.expect(stamps(x, x.attr(root, "value")) == orig and rank(x, x.attr(root, "timestamp")) == old, "reading-keeps-timestamp", f"InstanceNode.{q}", f"{q}() changed timestamps")


EDITS = [
    (("m:c", "a"), "update", ["y"], {}, "self"), (("m:string",), "update", ["y"], {}, "self"), (("m:c", "b"), "update", [7], {"raw": True}, "self"),
    (("m:c", "ll"), "update", [["1"]], {"raw": True}, "self"), (("m:c", "e"), "update", [{"z": "1"}], {"raw": True}, "self"), (("m:c", "l"), "update", [[{"k": "5"}]], {"raw": True}, "self"),
    (("m:c", "l", 1), "update", [{"k": "2"}], {"raw": True}, "self"), (("m:c", "ll", 1), "update", ["z"], {}, "self"), (("m:c", "l", 0, "n", 1, "nk"), "update", ["9"], {}, "self"),
    ((), "update", [{"m:string": "q"}], {"raw": True}, "self"), (("m:ad",), "update", [{"z": 1}], {"raw": True}, "self"),
    (("m:c",), "put_member", ["new", "1"], {}, "new"), (("m:c",), "put_member", ["a", "1"], {}, "a"), (("m:c",), "put_member", ["e", {"z": "2"}], {"raw": True}, "e"), ((), "put_member", ["m:c2", {"z": "2"}], {"raw": True}, "m:c2"),
    (("m:c", "l", 1), "put_member", ["h", "1"], {}, "h"),
    (("m:c",), "delete_item", ["a"], {}, "self"), (("m:c", "l"), "delete_item", [1], {}, "self"), (("m:c", "ll"), "delete_item", [0], {}, "self"), ((), "delete_item", ["m:string"], {}, "self"), (("m:c", "l", 2), "delete_item", ["j"], {}, "self"),
    (("m:c", "ll", 0), "insert_before", ["n"], {}, 0), (("m:c", "ll", 2), "insert_after", ["n"], {}, 3), (("m:c", "l", 1), "insert_before", [{"k": "9"}], {"raw": True}, 1), (("m:c", "l", 0), "insert_after", [{"k": "9"}], {"raw": True}, 1),
    (("m:c",), "merge", [{"a": "q"}], {"raw": True}, "self"), (("m:c",), "merge", [{"new": "q"}], {"raw": True}, "self"), (("m:c", "ll"), "merge", [["9"]], {"raw": True}, "self"), (("m:c", "l"), "merge", [[{"k": "2", "j": 9}]], {"raw": True}, "self"), ((), "merge", [{"m:c": {"e": {"w": "1"}}}], {"raw": True}, "self"),
    (("m:c",), "add_defaults", [], {}, "self"), ((), "add_defaults", [], {}, "self"),
]
# what an edit changes below the node it is applied to (paths relative to it)
DEEP = {("m:c", "l"): {"merge": [(), (1,)]}, (): {"merge": [(), ("m:c",), ("m:c", "e")], "add_defaults": [(), ("m:c",)]}}


def edits(x):
    """Everything that contains the change is dated by the edit, nothing else is, whatever moves follow."""
    for at, op, args, kw, to in EDITS:
        root = setup(x)
        orig = stamps(x, x.attr(root, "value"))
        old = max(orig.values())
        n = walk(x, root, at)
        nt = rank(x, x.attr(n, "timestamp"))
        cons = ("ArrayEntry." if op.startswith("insert") else "InstanceNode.") + op
        what = f"{op}({', '.join(map(repr, args))}) at {at}"
        r = x.attempt(lambda: x.call(n, op, *[L(a) for a in args], **{k: K(v) for k, v in kw.items()}))
        if not x.expect(r[0] == "ok", "edit", cons, f"{what} raises {r[1]}"):
            continue
        e = r[1]
        x.expect(stamps(x, x.attr(root, "value")) == orig and rank(x, x.attr(n, "timestamp")) == nt and rank(x, x.attr(root, "timestamp")) == old, "edit-keeps-original-timestamps", cons, f"{what} changed timestamps of the tree it started from")
        target = at if to == "self" else at[:-1] + (to,) if isinstance(to, int) else at + (to,)
        x.expect(pathof(x, e) == target, "edit", cons, f"{what} returns the node at {pathof(x, e)}")
        x.expect((rank(x, x.attr(e, "timestamp")) or 0) > old, "edit-dates-node", cons, f"the timestamp of the result of {what} is older than the edit")
        deep = DEEP.get(at, {}).get(op, [()])
        changed = {at + d for d in deep}
        for p in list(changed):
            changed |= {p[:i] for i in range(len(p))}
        if op.startswith("insert") or op == "update" and isinstance(walk_raw(at), (str, int)):
            changed = {at[:i] for i in range(len(at))}
        if op == "update" and isinstance(walk_raw(at[:-1]), list):
            changed = {at[:i] for i in range(len(at))}
        # moves that leave the place of the edit do not lose the date
        for how, f in list(neighbours(x, e, target if op != "insert_before" else at)) if op in ("update", "put_member", "insert_before", "insert_after") and target else []:
            if how in ("up", "top") or how.startswith("["):
                continue
            r = x.attempt(f)
            if r[0] != "ok":
                continue
            k = r[1]
            v = x.I.force(x.attr(k, "value"))
            if structured(v) and pathof(x, k) != ("m:ad",):
                q = x.I.getitem(k, K(0) if isinstance(v.payload, Lst) else v.payload.entries[0][0])
                k = x.call(q, "up")
            late = stamps(x, x.attr(x.call(k, "top"), "value"))
            for p in changed - {target}:
                if p in late:
                    x.expect((late[p] or 0) > old, "edit-dates-ancestors", "InstanceNode.up", f"after {what} and moving to {how}, the value at {p} has a timestamp older than the edit")
        # the way up: node by node, and from the top down again
        m, first = e, True
        while True:
            p = pathof(x, m)
            if not p:
                break
            m = x.call(m, "up")
            x.expect((rank(x, x.attr(m, "timestamp")) or 0) > old, "edit-dates-ancestors", "InstanceNode.up", f"after {what}, the timestamp at {pathof(x, m)} is older than the edit")
        now = stamps(x, x.attr(m, "value"))
        for p in changed:
            if p in now:
                x.expect((now[p] or 0) > old, "edit-dates-ancestors", cons, f"after {what}, the value at {p} has a timestamp older than the edit")
        shift = op.startswith("insert") or op == "delete_item" and isinstance(walk_raw(at), list)
        for p, t in orig.items():
            if p in changed or p[:len(at)] == at and op in ("update",) or p not in now or p[:len(target)] == target and op == "put_member" or shift and p[:len(at[:-1] if op.startswith("insert") else at)] == (at[:-1] if op.startswith("insert") else at):
                continue
            if op in ("merge", "add_defaults") and p[:len(at)] == at:
                continue
            x.expect(now[p] == t, "edit-dates-nothing-else", cons, f"after {what}, the value at {p} - outside the change - has {'the time of the edit' if now[p] and now[p] > old else 'another timestamp'}")
        # moving to another place and back does not lose the date
        for p in sorted(changed, key=len):
            if p and p in now:
                k = walk(x, m, p)
                x.expect((rank(x, x.attr(k, "timestamp")) or 0) > old, "edit-dates-ancestors", "InstanceNode.__getitem__", f"after {what}, the node at {p} reached from the top has a timestamp older than the edit")


def values(x):
    """The classes of structured values."""
    I = x.I
    told = Sym(("told", 0), {"obj"}, rank=5)
    for name, content, key in (("ArrayValue", Lst("list", [K("a"), K("b")]), K(0)), ("ObjectValue", Dct([(K("a"), K(1))]), K("a"))):
        cls = x.p.cls(name)
        v = I.force(I.instantiate(cls, [content, told], {}))
        x.expect(rank(x, x.attr(v, "timestamp")) == 5, "value-timestamp", f"{name}.__init__", "the constructor argument is not the initial timestamp")
        d = I.force(I.instantiate(cls, [content], {}))
        x.expect((rank(x, x.attr(d, "timestamp")) or 0) > 1000, "value-timestamp", f"{name}.__init__", "without argument, the timestamp is not the current time")
        c = I.force(x.call(v, "copy"))
        x.expect(c is not v and c.cls is v.cls and (rank(x, x.attr(c, "timestamp")) or 0) > 1000 and rank(x, x.attr(v, "timestamp")) == 5, "value-timestamp", "StructuredValue.copy", f"copy of {name}: timestamp of the copy is not current, or that of the receiver changed")
        before = rank(x, x.attr(c, "timestamp"))
        I.setitem(c, key, K("new"))
        x.expect((rank(x, x.attr(c, "timestamp")) or 0) > (before or 0) and rank(x, x.attr(v, "timestamp")) == 5, "value-timestamp", "StructuredValue.__setitem__", f"setting an item of {name} does not set the timestamp to the current time")


def run(ck):
    ck.floor = 5000
    cfg = Config(steps=10**7, rec=120, depth=400)
    w = world(ck, "c46", model)
    ck.scenario("navigation", navigation, w, cfg)
    ck.scenario("edits", edits, w, cfg)
    ck.scenario("values", values, w, cfg)
