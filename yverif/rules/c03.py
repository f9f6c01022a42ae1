"""C03: the instance cursor (zipper) edits exactly the addressed position.

Abstract domain: arrays and objects of bounded shape whose elements are
distinct uninterpreted tokens; the operations of the cursor are interpreted
over them and the resulting parent value is compared, token by token, with
the specified one.  Since the operations only move tokens, the outcome does
not depend on what the tokens stand for.
"""
from .common import *

NMAX = 3


def observe(x, e, tag):
    """Walk the array from an entry through public operations only."""
    I = x.I
    cur = e
    before = []
    for _ in range(8):
        r = x.attempt(lambda: x.call(cur, "previous"))
        if r[0] == "raise":
            x.expect(r[1] == "NonexistentInstance", "boundary-exception", "ArrayEntry.previous",
                     f"{tag}: walking before the first entry raises {r[1]}", x.last.loc)
            break
        cur = r[1]
        before.insert(0, cur)
    cur = e
    after = []
    for _ in range(8):
        r = x.attempt(lambda: x.call(cur, "next"))
        if r[0] == "raise":
            x.expect(r[1] == "NonexistentInstance", "boundary-exception", "ArrayEntry.next",
                     f"{tag}: walking past the last entry raises {r[1]}", x.last.loc)
            break
        cur = r[1]
        after.append(cur)
    return before, after


def check_state(x, e, want, idx, cons, tag):
    """Entry `e` must denote position idx of the sequence `want`."""
    I = x.I
    up = x.call(e, "up")
    got = seq(I, x.attr(up, "value"))
    x.expect(same_seq(got, want), "parent-sequence", cons, f"{tag}: array after up() is {names(got)}, expected {names(want)}")
    x.eq(x.attr(e, "value"), want[idx], "focus-value", cons, f"{tag}: value of the result")
    x.eq(x.attr(e, "index"), K(idx), "focus-index", cons, f"{tag}: index of the result")
    b, a = observe(x, e, tag)
    vals = [x.attr(n, "value") for n in b] + [x.attr(e, "value")] + [x.attr(n, "value") for n in a]
    x.expect(same_seq(vals, want), "neighbour-walk", cons, f"{tag}: entries seen by previous()/next() are {names(vals)}, expected {names(want)}")
    ids = [x.attr(n, "index") for n in b + [e] + a]
    x.expect([getattr(i, "val", None) for i in ids] == list(range(len(want))), "neighbour-index", cons,
             f"{tag}: indices seen by previous()/next() are {names(ids)}")
    k = x.attr(e, "path")
    its = seq(I, k)
    x.expect(bool(its) and isinstance(its[-1], K) and its[-1].val == idx, "path-tail", cons, f"{tag}: path ends with {names(its[-1:])}, expected {idx}")
    x.expect(x.attr(e, "schema_node") is x.attr(up, "schema_node"), "schema-node", cons, f"{tag}: schema node of entry and array differ")
    return up


def arrays(ck):
    w = main_world(ck)
    for n in range(0, NMAX + 1):
        def base(x, n=n):
            sc = x.sc
            toks = [sc.token(f"e{i}") for i in range(n)]
            v = sc.objd({"m:c": sc.objd({"a": sc.token("a"), "ll": sc.arr(*toks), "b": sc.token("b")}), "m:top": sc.token("top")})
            root = sc.root(v)
            return root, sc.member(root, "m:c", "ll"), toks

        def t_bounds(x, base=base, n=n):
            root, ll, toks = base(x)
            for bad in (n, n + 1, -n - 1):
                x.raises(lambda: x.I.getitem(ll, K(bad)), "NonexistentInstance", "index-bounds", "InstanceNode.__getitem__", f"entry {bad} of {n}")
            x.raises(lambda: x.call(ll, "delete_item", K(n)), "NonexistentInstance", "index-bounds", "InstanceNode.delete_item", f"delete entry {n} of {n}")
            its = [x.attr(e, "value") for e in x.I.iterate(ll)]
            x.expect(same_seq(its, toks), "iteration-order", "InstanceNode.__iter__", f"iteration yields {names(its)}, expected {names(toks)}")
        ck.scenario(f"InstanceNode/bounds-{n}", t_bounds, w)
        for i in range(n):
            def t_entry(x, base=base, n=n, i=i):
                root, ll, toks = base(x)
                for key in (i, i - n):
                    e = x.sc.member(ll, K(key))
                    check_state(x, e, toks, i, "InstanceNode.__getitem__", f"entry {key} of {n}")

            def t_next(x, base=base, n=n, i=i):
                root, ll, toks = base(x)
                e = x.sc.member(ll, K(i))
                if i + 1 < n:
                    check_state(x, x.call(e, "next"), toks, i + 1, "ArrayEntry.next", f"next of {i} in {n}")
                    check_state(x, x.call(x.call(e, "next"), "previous"), toks, i, "ArrayEntry.previous", f"next,previous at {i} in {n}")
                else:
                    x.raises(lambda: x.call(e, "next"), "NonexistentInstance", "boundary-exception", "ArrayEntry.next", "next of last")
                if i > 0:
                    check_state(x, x.call(e, "previous"), toks, i - 1, "ArrayEntry.previous", f"previous of {i} in {n}")
                else:
                    x.raises(lambda: x.call(e, "previous"), "NonexistentInstance", "boundary-exception", "ArrayEntry.previous", "previous of first")

            def t_ins(x, base=base, n=n, i=i):
                root, ll, toks = base(x)
                e = x.sc.member(ll, K(i))
                new = x.sc.token("new")
                check_state(x, x.call(e, "insert_before", new), toks[:i] + [new] + toks[i:], i, "ArrayEntry.insert_before", f"insert_before at {i} of {n}")
                check_state(x, x.call(e, "insert_after", new), toks[:i + 1] + [new] + toks[i + 1:], i + 1, "ArrayEntry.insert_after", f"insert_after at {i} of {n}")

            def t_upd(x, base=base, n=n, i=i):
                root, ll, toks = base(x)
                e = x.sc.member(ll, K(i))
                new = x.sc.token("new")
                up = check_state(x, x.call(e, "update", new), toks[:i] + [new] + toks[i + 1:], i, "ArrayEntry.update", f"update at {i} of {n}")
                top = x.call(x.call(e, "update", new), "top")
                check_top(x, top, toks[:i] + [new] + toks[i + 1:], "ArrayEntry.update")
                d = x.call(ll, "delete_item", K(i))
                got = seq(x.I, x.attr(d, "value"))
                x.expect(same_seq(got, toks[:i] + toks[i + 1:]), "delete-exact", "InstanceNode.delete_item", f"deleting entry {i} of {n} leaves {names(got)}")
                check_top(x, x.call(d, "top"), toks[:i] + toks[i + 1:], "InstanceNode.delete_item")

            def t_mix(x, base=base, n=n, i=i):
                root, ll, toks = base(x)
                e = x.sc.member(ll, K(i))
                n1, n2, n3 = (x.sc.token(f"new{j}") for j in range(3))
                e2 = x.call(x.call(x.call(e, "insert_before", n1), "insert_after", n2), "update", n3)
                want = toks[:i] + [n1, n3] + toks[i:]
                check_state(x, e2, want, i + 1, "ArrayEntry.insert_after", f"insert_before,insert_after,update at {i} of {n}")
                e3 = x.call(x.call(e2, "next"), "update", n2)
                want = toks[:i] + [n1, n3, n2] + toks[i + 1:]
                check_state(x, e3, want, i + 2, "ArrayEntry.next", f"insert,next,update at {i} of {n}")
            for nm, f in (("InstanceNode.__getitem__", t_entry), ("ArrayEntry.next", t_next), ("ArrayEntry.insert", t_ins), ("ArrayEntry.update", t_upd), ("ArrayEntry.mixed", t_mix)):
                ck.scenario(f"{nm}/{i}-of-{n}", f, w)


def check_top(x, top, want, cons):
    I = x.I
    v = x.attr(top, "value")
    d = dict(entries(I, v))
    x.expect(set(d) == {"m:c", "m:top"}, "root-members", cons, f"root members after top(): {sorted(map(str, d))}")
    if "m:c" not in d:
        return
    c = dict(entries(I, d["m:c"]))
    x.expect(set(c) == {"a", "ll", "b"}, "sibling-members", cons, f"sibling members after top(): {sorted(map(str, c))}")
    if "ll" in c:
        got = seq(I, c["ll"])
        x.expect(same_seq(got, want), "change-reaches-root", cons, f"array seen from the root is {names(got)}, expected {names(want)}")
    for k in ("a", "b"):
        if k in c:
            x.eq(c[k], x.sc.token(k), "sibling-untouched", cons, f"sibling {k}")
    x.expect(x.attr(top, "parinst") is NONE or isinstance(x.attr(top, "parinst"), K), "top-is-root", cons, "top() has a parent")


def expect_obj(x, v, want, rule, cons, tag):
    got = dict(entries(x.I, v))
    x.expect(set(got) == set(want), rule, cons, f"{tag}: members {sorted(map(str, got))}, expected {sorted(want)}")
    for k in want:
        if k in got:
            x.expect(same(got[k], want[k]), rule, cons, f"{tag}: member {k} is {show(term_of(got[k]))}, expected {show(term_of(want[k]))}")


def objects(ck):
    w = main_world(ck)
    allm = ["a", "b", "ll", "d"]
    import itertools
    shapes = [s for r in range(1, 4) for s in itertools.combinations(allm, r)]
    for shape in shapes:
        def base(x, shape=shape):
            sc = x.sc
            ms = {}
            for k in shape:
                ms[k] = sc.arr(sc.token("e0")) if k == "ll" else sc.objd({"x": sc.token("x")}) if k == "d" else sc.token("v" + k)
            root = sc.root(sc.objd({"m:c": sc.objd(ms), "m:top": sc.arr(sc.token("top"))}))
            return root, sc.member(root, "m:c"), ms

        def t_member(x, base=base, shape=shape):
            root, c, ms = base(x)
            absent = [k for k in allm + ["p"] if k not in shape]
            for k in absent:
                x.raises(lambda: x.sc.member(c, k), "NonexistentInstance", "missing-member", "InstanceNode.__getitem__", f"member {k} of {shape}")
                x.raises(lambda: x.call(c, "delete_item", K(k)), "NonexistentInstance", "missing-member", "InstanceNode.delete_item", f"delete {k} of {shape}")
            x.raises(lambda: x.call(c, "put_member", K("nonsense"), x.sc.token("v")), "NonexistentSchemaNode", "unknown-member", "InstanceNode.put_member", "put_member of unknown name")
            for k in shape:
                for key in (k, "m:" + k):
                    m = x.sc.member(c, key)
                    x.expect(same(x.attr(m, "value"), ms[k]), "focus-value", "InstanceNode.__getitem__", f"value of member {key} of {shape}")
                    x.expect(x.attr(m, "schema_node") is x.sc.node("c", k), "schema-node", "InstanceNode.__getitem__", f"schema node of member {key}")
                    u = x.call(m, "up")
                    expect_obj(x, x.attr(u, "value"), ms, "parent-members", "ObjectMember.up", f"up() of {key} of {shape}")
                pth = seq(x.I, x.attr(m, "path"))
                x.expect([getattr(q, "val", None) for q in pth] == ["m:c", k], "path", "InstanceNode.path", f"path of {k}: {names(pth)}")
                jp = x.call(m, "json_pointer")
                x.eq(jp, K("/m:c/" + k), "json-pointer", "InstanceNode.json_pointer", f"JSON pointer of {k}")
                for k2 in allm:
                    if k2 == k:
                        continue
                    if k2 not in shape:
                        x.raises(lambda: x.call(m, "sibling", K(k2)), "NonexistentInstance", "missing-member", "ObjectMember.sibling", f"sibling {k2} of {k} in {shape}")
                        continue
                    s = x.call(m, "sibling", K(k2))
                    x.expect(same(x.attr(s, "value"), ms[k2]), "focus-value", "ObjectMember.sibling", f"sibling {k2} of {k}")
                    x.expect(x.attr(s, "schema_node") is x.sc.node("c", k2), "schema-node", "ObjectMember.sibling", f"schema node of sibling {k2}")
                    expect_obj(x, x.attr(x.call(s, "up"), "value"), ms, "parent-members", "ObjectMember.sibling", f"up() of sibling {k2} of {k}")
                    b = x.call(s, "sibling", K(k))
                    x.expect(same(x.attr(b, "value"), ms[k]), "focus-value", "ObjectMember.sibling", f"sibling back to {k}")

        def t_edit(x, base=base, shape=shape):
            root, c, ms = base(x)
            new = x.sc.token("new")
            for k in shape:
                if k in ("ll", "d"):
                    new_k = x.sc.arr(new) if k == "ll" else x.sc.objd({"y": new})
                else:
                    new_k = new
                want = dict(ms)
                want[k] = new_k
                m = x.call(x.sc.member(c, k), "update", new_k)
                expect_obj(x, x.attr(x.call(m, "up"), "value"), want, "update-exact", "InstanceNode.update", f"update {k} of {shape}")
                for k2 in shape:
                    if k2 != k:
                        s = x.call(m, "sibling", K(k2))
                        expect_obj(x, x.attr(x.call(s, "up"), "value"), want, "update-survives-sibling", "ObjectMember.sibling", f"update {k} then sibling {k2}")
                pm = x.call(c, "put_member", K(k), new_k)
                x.expect(same(x.attr(pm, "value"), new_k), "focus-value", "InstanceNode.put_member", f"put_member {k}")
                expect_obj(x, x.attr(x.call(pm, "up"), "value"), want, "put-exact", "InstanceNode.put_member", f"put_member {k} of {shape}")
                d = x.call(c, "delete_item", K(k))
                expect_obj(x, x.attr(d, "value"), {q: v for q, v in ms.items() if q != k}, "delete-exact", "InstanceNode.delete_item", f"delete {k} of {shape}")
                t = x.call(d, "top")
                tv = dict(entries(x.I, x.attr(t, "value")))
                if x.expect("m:c" in tv and "m:top" in tv, "change-reaches-root", "InstanceNode.top", "root members after delete"):
                    expect_obj(x, tv["m:c"], {q: v for q, v in ms.items() if q != k}, "change-reaches-root", "InstanceNode.top", f"delete {k} then top()")
            for k in [q for q in ("a", "b") if q not in shape]:
                pm = x.call(c, "put_member", K(k), new)
                want = dict(ms)
                want[k] = new
                expect_obj(x, x.attr(x.call(pm, "up"), "value"), want, "put-exact", "InstanceNode.put_member", f"put_member new {k} into {shape}")
                tv = dict(entries(x.I, x.attr(x.call(pm, "top"), "value")))
                if x.expect("m:c" in tv and "m:top" in tv, "change-reaches-root", "InstanceNode.top", "root members after put_member"):
                    expect_obj(x, tv["m:c"], want, "change-reaches-root", "InstanceNode.top", f"put_member new {k} then top()")
        ck.scenario(f"ObjectMember/{'+'.join(shape)}", t_member, w)
        ck.scenario(f"InstanceNode.edit/{'+'.join(shape)}", t_edit, w)


def lookups(ck):
    w = main_world(ck)
    for n in (1, 2, 3):
        for i in range(n):
            def t(x, n=n, i=i):
                sc = x.sc
                ks = [sc.token(f"k{j}") for j in range(n)]
                vs = [sc.token(f"v{j}") for j in range(n)]
                ents = [sc.objd({"k": ks[j], "v": vs[j]}) for j in range(n)]
                root = sc.root(sc.objd({"m:c": sc.objd({"l": sc.arr(*ents)})}))
                l = sc.member(root, "m:c", "l")
                e = x.call(l, "look_up", k=ks[i])
                x.expect(same(x.attr(e, "value"), ents[i]), "lookup-match", "InstanceNode.look_up", f"look_up key {i} of {n}")
                x.eq(x.attr(e, "index"), K(i), "focus-index", "InstanceNode.look_up", f"look_up key {i} of {n}: index")
                e = x.call(l, "look_up", k=ks[i], v=vs[i])
                x.expect(same(x.attr(e, "value"), ents[i]), "lookup-match", "InstanceNode.look_up", f"look_up key+value {i} of {n}")
                x.raises(lambda: x.call(l, "look_up", k=sc.token("nokey")), "NonexistentInstance", "lookup-miss", "InstanceNode.look_up", "no such key")
                x.raises(lambda: x.call(l, "look_up", k=ks[i], v=sc.token("nov")), "NonexistentInstance", "lookup-miss", "InstanceNode.look_up", "key matches but other value does not")
                if n > 1:
                    x.raises(lambda: x.call(l, "look_up", k=ks[i], v=vs[(i + 1) % n]), "NonexistentInstance", "lookup-miss", "InstanceNode.look_up", "key of one entry with value of another")
                x.raises(lambda: x.call(sc.member(root, "m:c"), "look_up", k=ks[0]), "InstanceValueError", "lookup-nonlist", "InstanceNode.look_up", "look_up on a container")
                # deep edit through a looked-up entry
                new = sc.token("new")
                m = x.call(sc.member(x.call(l, "look_up", k=ks[i]), "v"), "update", new)
                top = x.call(m, "top")
                c = dict(entries(x.I, dict(entries(x.I, x.attr(top, "value")))["m:c"]))
                got = seq(x.I, c["l"])
                x.expect(len(got) == n, "change-reaches-root", "InstanceNode.top", f"{len(got)} entries instead of {n}")
                for j, g in enumerate(got):
                    expect_obj(x, g, {"k": ks[j], "v": new if j == i else vs[j]}, "change-reaches-root", "InstanceNode.top", f"entry {j} after updating entry {i}")
            ck.scenario(f"InstanceNode.look_up/{i}-of-{n}", t, w)

    def t_partial(x):
        """Entries lacking some of the members asked for never match."""
        sc = x.sc
        a, b, c = sc.token("a"), sc.token("b"), sc.token("c")
        shapes = [{"k": a}, {"v": b}, {"k": a, "v": c}, {}, {"k": a, "v": b}, {"k": c, "v": b}]
        for perm in [shapes, shapes[::-1], shapes[2:] + shapes[:2], shapes[3:] + shapes[:3]]:
            ents = [sc.objd(d) for d in perm]
            l = sc.member(sc.root(sc.objd({"m:c": sc.objd({"l": sc.arr(*ents)})})), "m:c", "l")
            for q in ({"k": a, "v": b}, {"v": b, "k": a}, {"k": a}, {"v": b}, {"k": c, "v": c}, {"k": b}, {"v": c, "k": a}, {}):
                hit = next((i for i, d in enumerate(perm) if all(k in d and d[k] is v for k, v in q.items())), None)
                r = x.attempt(lambda: x.call(l, "look_up", **q))
                what = f"look_up of {[k for k in q]} among entries with members {[list(d) for d in perm]}"
                if hit is None:
                    x.expect(r == ("raise", "NonexistentInstance"), "lookup-miss", "InstanceNode.look_up", f"{what}: {r[1] if r[0] == 'raise' else 'an entry is found'}")
                else:
                    x.expect(r[0] == "ok" and same(x.attr(r[1], "value"), ents[hit]), "lookup-match", "InstanceNode.look_up", f"{what}: {r[1] if r[0] == 'raise' else 'another entry is found'} instead of entry {hit}")
                    if r[0] == "ok":
                        x.eq(x.attr(r[1], "index"), K(hit), "focus-index", "InstanceNode.look_up", what)
    ck.scenario("InstanceNode.look_up/partial", t_partial, w)

    def t_scalar(x):
        sc = x.sc
        root = sc.root(sc.objd({"m:c": sc.objd({"a": sc.token("a")})}))
        a = sc.member(root, "m:c", "a")
        x.raises(lambda: x.I.getitem(a, K("z")), "InstanceValueError", "scalar-access", "InstanceNode.__getitem__", "member of a scalar")
        x.raises(lambda: x.I.iterate(a), "InstanceValueError", "scalar-access", "InstanceNode.__iter__", "iterating a scalar")
        x.raises(lambda: x.call(a, "delete_item", K("z")), "InstanceValueError", "scalar-access", "InstanceNode.delete_item", "delete_item of a scalar")
        x.raises(lambda: x.call(a, "put_member", K("z"), sc.token("q")), "InstanceValueError", "scalar-access", "InstanceNode.put_member", "put_member of a scalar")
        x.raises(lambda: x.call(root, "up"), "NonexistentInstance", "up-of-root", "RootNode.up", "up() of the root")
        t = x.call(root, "top")
        x.expect(t is root or same(x.attr(t, "value"), x.attr(root, "value")), "top-of-root", "InstanceNode.top", "top() of the root")
    ck.scenario("InstanceNode/scalars", t_scalar, w)


def timestamps(ck):
    w = main_world(ck)

    def t(x):
        sc, I = x.sc, x.I
        t1, t2 = Sym(("ts", 1), {"obj"}, rank=1), Sym(("ts", 2), {"obj"}, rank=2)
        for told, tnew, want in ((t1, t2, t2), (t2, t1, t2)):
            v = sc.objd({"m:c": sc.objd({"ll": sc.arr(sc.token("e"), ts=told), "d": sc.objd({"x": sc.token("x")}, ts=told)}, ts=told)}, ts=told)
            root = sc.root(v)
            for nm, val in (("ll", sc.arr(sc.token("f"), ts=tnew)), ("d", sc.objd({"x": sc.token("g")}, ts=tnew))):
                m = sc.member(root, "m:c", nm)
                x.eq(x.attr(m, "timestamp"), told, "timestamp-navigation", "InstanceNode.__getitem__", f"timestamp of {nm}")
                u = x.call(m, "update", val)
                x.eq(x.attr(u, "timestamp"), tnew, "timestamp-update", "InstanceNode.update", f"timestamp of updated {nm}")
                p = x.call(u, "up")
                x.eq(x.attr(p, "timestamp"), want, "timestamp-up", "InstanceNode.up", "timestamp of the parent is the latest")
                r = x.call(p, "up")
                x.eq(x.attr(r, "timestamp"), want, "timestamp-up", "InstanceNode.up", "timestamp of the root is the latest")
    ck.scenario("InstanceNode.timestamp", t, w)


def run(ck):
    ck.floor = 1500
    arrays(ck)
    objects(ck)
    lookups(ck)
    timestamps(ck)
