"""C48: output filters decide node by node what is output.

An abstract filter records every question it is asked and answers as the
scenario wants it; questions and outputs of raw_value() and to_xml() are
compared with a walk through the document."""
import copy
from .common import *
from .c11 import L
from .c12 import out
from .c28 import plain, wld

NOTE = {"an:note": "n"}
DOC = {"m:top": "x", "@m:top": {"an:note": "t", "an:cnt": 3}, "m:num": 3,
       "m:c": {"@": {"an:note": "c"}, "a": "x", "b": 5, "@b": {"an:cnt": 2}, "ll": [1, 2], "e": {"z": "1"}, "o:oa": "y", "o:oc": {"@": NOTE, "ol": "w"}, "c2": {"c2a": "z", "@c2a": NOTE},
               "l": [{"k": "1", "v": "p", "ic": {"iz": "q", "@iz": NOTE}, "n": [{"nk": "a"}, {"nk": "b", "nv": "c"}]}, {"k": "2", "@": {"an:note": "e"}}], "kl": [{"u": "1"}]}}
ANY = {"m:c": {"a": "x", "ad": {"some": {"t": [1, {"z": 2}]}}, "b": 1}}
EMPTY = {"m:c": {"l": [{"k": "1"}, {"k": "2"}], "e": {}, "ll": [3]}}


class Ref:
    """Reference output and questions; `no` = (kind, path) refused, `add` = (kind, path) that adds an attribute."""

    def __init__(self, no=(), add=None, xml=False):
        self.no, self.add, self.xml, self.events = no, add, xml, []

    def ask(self, kind, parent, path, at, vis=True):
        self.events.append((kind, parent, path, dict(at) if vis else None))
        if self.add == (kind, path):
            at["x:extra"] = "added"
        return (kind, path) not in self.no

    def meta(self, v, k, a):
        return dict(a["@"] if isinstance(a, dict) and "@" in a else v.get("@" + k, {}))

    def raw(self, v, path, opaque=()):
        if isinstance(v, dict) and path not in opaque:
            res = {}
            for k, a in v.items():
                if k[0] == "@":
                    continue
                p, at = path + (k,), self.meta(v, k, a) if path + (k,) not in opaque else {}
                go = self.ask("begin_member", path, p, at)
                inner = self.raw(a, p, opaque) if go else None
                if self.ask("end_member", path, p, at) and go:
                    res[k] = inner
                    if at:
                        (inner if isinstance(inner, dict) else res)["@" if isinstance(inner, dict) else "@" + k] = at
            return res
        if isinstance(v, list) and path not in opaque:
            res = []
            for i, a in enumerate(v):
                p, at = path + (i,), dict(a.get("@", {})) if isinstance(a, dict) else {}
                go = self.ask("begin_element", path, p, at)
                inner = self.raw(a, p, opaque) if go else None
                if self.ask("end_element", path, p, at) and go and inner != {}:
                    if at:
                        inner["@"] = at
                    res.append(inner)
            return res
        return copy.deepcopy(v)

    def element(self, name, v, path):
        e = {"name": name.rpartition(":")[2], "text": None, "attrs": {}, "kids": []}
        if not isinstance(v, dict):
            e["text"] = str(v)
            return e
        for k, a in v.items():
            if k[0] == "@":
                continue
            p, at, kids = path + (k,), self.meta(v, k, a), []
            if self.ask("begin_member", path, p, at):
                if isinstance(a, list):
                    for i, b in enumerate(a):
                        q, eat = p + (i,), {}
                        go = self.ask("begin_element", p, q, eat, False)
                        c = self.element(k, b, q) if go else None
                        if self.ask("end_element", p, q, eat, False) and go:
                            c["attrs"].update(eat)
                            kids.append(c)
                else:
                    kids.append(self.element(k, a, p))
            if self.ask("end_member", path, p, at):
                for c in kids:
                    c["attrs"].update({n: str(s) for n, s in at.items()})
                e["kids"] += kids
        return e


def tree(o):
    return {"name": o["name"], "text": o["text"] or None, "attrs": {k: str(v) for k, v in o["attrs"].items()}, "kids": [tree(c) for c in o["kids"]]}


def paths(v, path=(), opaque=()):
    """Paths of all members and elements, and whether an attribute may be added there."""
    res = []
    if path in opaque:
        return res
    for k, a in v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ():
        if isinstance(k, str) and k[0] == "@":
            continue
        kind = "member" if isinstance(k, str) else "element"
        res.append((kind, path + (k,), not isinstance(a, list) and (kind == "member" or isinstance(a, dict))))
        res += paths(a, path + (k,), opaque)
    return res


def filt(x, ref, events, opaque=None):
    f = x.sc.new("OutputFilter")

    def hook(kind):
        def fn(I, a, kw):
            at = I.force(a[2])
            p = plain(x, x.attr(I.force(a[1]), "path"))
            ev = (kind, plain(x, x.attr(I.force(a[0]), "path")), p, plain(x, at))
            events.append(ev)
            if ref.add == (kind, p):
                I.setitem(at, K("x:extra"), K("added"))
            return kbool((kind, p) not in ref.no)
        return Native(fn, kind)
    for k in ("begin_member", "end_member", "begin_element", "end_element"):
        f.fields[k] = hook(k)
    return f


def brief(v):
    s = str(v)
    return s if len(s) < 200 else s[:200] + "..."


def compare(x, node, raw, path, ref, what, opaque=(), xml=False):
    events, fn = [], "to_xml" if xml else "raw_value"
    whole = plain(x, x.attr(x.call(node, "top"), "value"))
    f = filt(x, ref, events)
    want = ref.element("content-data" if not path else top(path), raw, path) if xml else ref.raw(raw, path, opaque)
    r = x.attempt(lambda: x.call(node, fn, f))
    c = f"InstanceNode.{fn}"
    if not x.expect(r[0] == "ok", "filter-output", c, f"{what}: {r[1]}", x.last.loc if r[0] == "raise" else None):
        return
    if xml:
        o = x.I.force(r[1])
        got = None if isinstance(o, K) else tree(out(x, o))
        if not path and not isinstance(o, K):
            got["name"] = "content-data"
        if path and not want["kids"]:
            want = None         # nothing to output
        events = [(k, p, q, at if "member" in k else None) for k, p, q, at in events]
    else:
        got = plain(x, r[1])
    d = next((f"question {i + 1} is {a} instead of {b}" for i, (a, b) in enumerate(zip(events, ref.events)) if a != b), None if len(events) == len(ref.events) else f"{len(events)} questions instead of {len(ref.events)}")
    x.expect(d is None, "filter-questions", c, f"{what}: {d}")
    x.expect(got == want, "filter-output", c, f"{what}: output {brief(got)} instead of {brief(want)}")
    x.expect(plain(x, x.attr(x.call(node, "top"), "value")) == whole, "filter-leaves-data", c, f"{what}: the instance is modified")


def top(path):
    return [k for k in path if isinstance(k, str)][-1]


def at_path(x, node, raw, path):
    for k in path:
        node = x.I.getitem(node, K(k))
        raw = raw[k]
    return node, raw


STARTS = [(), ("m:c",), ("m:c", "l"), ("m:c", "l", 0), ("m:c", "o:oc"), ("m:c", "ll")]


def run(ck):
    ck.floor = 2000
    w = wld(ck)
    cfg = Config(steps=2 * 10**7, rec=120, depth=400)
    for dn, doc, opaque in (("all", DOC, ()), ("anydata", ANY, (("m:c", "ad"),)), ("empty", EMPTY, ())):
        nodes = paths(doc, (), opaque)
        for part in range(4 if dn == "all" else 1):
            def t(x, doc=doc, opaque=opaque, nodes=nodes, part=part, dn=dn):
                root = x.call(x.sc.dm, "from_raw", L(doc))
                n = 4 if dn == "all" else 1
                for xml in (False, True):
                    if xml and opaque:
                        continue
                    for s in STARTS:
                        try:
                            node, raw = at_path(x, root, doc, s)
                        except (KeyError, AbsRaise):
                            continue
                        if xml and isinstance(raw, list):
                            continue
                        how = f"{'to_xml' if xml else 'raw_value'} of /{'/'.join(map(str, s))}"
                        if part == 0:
                            compare(x, node, raw, s, Ref(xml=xml), f"{how} with a filter that approves everything", opaque, xml)
                            u = x.attempt(lambda: x.call(node, "to_xml" if xml else "raw_value"))
                            d = x.attempt(lambda: x.call(node, "to_xml" if xml else "raw_value", x.sc.new("OutputFilter")))
                            v = [o[1] if o[0] == "raise" else (tree(out(x, o[1])) if xml else plain(x, o[1])) for o in (u, d)]
                            ref = Ref(xml=xml)
                            want = ref.element("content-data" if not s else top(s), raw, s) if xml else ref.raw(raw, s, opaque)
                            for g, h in zip(v, ("without a filter", "with the plain OutputFilter")):
                                x.expect(g == want or xml and isinstance(g, dict) and dict(g, name="") == dict(want, name=""), "filter-default", "OutputFilter", f"{how} {h} gives {brief(g)} instead of {brief(want)}")
                        for i, (kind, p, attr) in enumerate(nodes):
                            if i % n != part or p[:len(s)] != s or p == s or len(s) and len(p) > len(s) + 2:
                                continue
                            for when in ("begin", "end"):
                                q = (f"{when}_{kind}", p)
                                compare(x, node, raw, s, Ref({q}, xml=xml), f"{how} when {q[0]} refuses /{'/'.join(map(str, p))}", opaque, xml)
                                if attr:
                                    compare(x, node, raw, s, Ref((), q, xml), f"{how} when {q[0]} adds an attribute to /{'/'.join(map(str, p))}", opaque, xml)
            ck.scenario(f"{dn} {part}", t, w, cfg)
