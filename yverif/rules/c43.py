"""C43: the modules named in YANG library are the ones read from the search path.

The data model is built abstractly, with the library's own module parser, over
enumerated contents of a small file system."""
import hashlib, itertools
from .common import *
from ..values import *
from ..world import pydict
from ..interp import Native

CFG = Config(steps=10**7, rec=200, depth=600, while_max=10**6)
REV = "2020-01-02"
MS = "ietf-yang-library:modules-state"


def text(name, rev, mark, extra="", kind="module"):
    head = f"namespace 'urn:{name}'; prefix {name};" if kind == "module" else f"belongs-to {extra} {{ prefix x; }}"
    if kind == "module":
        head += extra
    return f"{kind} {name} {{ yang-version 1.1; {head} {'revision ' + rev + ';' if rev else ''} {'revision 2001-01-01;' if rev else ''} container {mark} {{ presence x; }} }}"


def files(x, disk):
    """Stub open() by a dictionary of files: text, or the name of an exception."""
    opened = []

    def fopen(I, a, kw):
        nm = I.force(a[0]).val
        mode = I.force(a[1]).val if len(a) > 1 else getattr(I.force(kw["mode"]), "val", "r") if "mode" in kw else "r"
        opened.append((nm, mode, getattr(I.force(kw["encoding"]), "val", None) if "encoding" in kw else None))
        import posixpath
        t = disk.get(posixpath.normpath(nm), "FileNotFoundError")
        if t.endswith("Error") and " " not in t:
            I.raise_ext("builtins." + t)
        f = Obj(Ext("io.TextIOWrapper"), "file:" + nm)
        f.exact = False
        f.fields["read"] = Native(lambda I, a, kw: K(t), "read")
        f.fields["close"] = Native(lambda I, a, kw: NONE, "close")
        return f
    x.I.extstub["builtins.open"] = fopen
    x.I.extstub["io.open"] = fopen
    return opened


def entry(name, rev="", **kw):
    return {"name": name, "revision": rev, "namespace": "urn:" + name, "conformance-type": "implement", **kw}


def lib(*ents):
    return {MS: {"module-set-id": "the-id", "module": list(ents)}}


def model(x, library, dirs=("d1", "d2")):
    x.I.extstub["json.loads"] = lambda I, a, kw: pydict(library)
    return x.attempt(lambda: x.I.instantiate(x.p.cls("DataModel"), [K("{}"), Lst("tuple", [K(d) for d in dirs])], {}))


def names(x, dm):
    return {getattr(x.I.force(x.attr(c, "name")), "val", "?") for c in x.I.iterate(x.attr(x.attr(dm, "schema"), "children"))}


NOFILE = ["FileNotFoundError", "PermissionError", "IsADirectoryError", "NotADirectoryError"]
STATES = ["absent", "denied", "right", "name", "rev", "broken"]


def content(state, name, rev, mark, **kw):
    return {"absent": "FileNotFoundError", "denied": "PermissionError", "right": text(name, rev, mark, **kw), "name": text(name + "x", rev, mark, **kw), "rev": text(name, "2019-01-01" if rev else REV, mark, **kw),
            "broken": "module " + name + " { ?"}[state]


def search(ck):
    """Which of the files of one name is taken."""
    for first in STATES:
        def t(x, first=first):
            for rest in itertools.product(STATES, repeat=3):
                st = (first,) + rest
                paths = [f"d1/m@{REV}.yang", "d1/m.yang", f"d2/m@{REV}.yang", "d2/m.yang"]
                if rest.count("broken") + rest.count("denied") > 1:
                    continue
                one(x, "m", REV, paths, st)
        ck.scenario(f"search/{first}", t, None, CFG)

    def plain(x):
        for st in itertools.product(STATES, repeat=2):
            one(x, "m", "", ["d1/m.yang", "d2/m.yang"], st)
            one(x, "m", "", ["d1/m.yang", "d2/m.yang"], st, {f"d1/m@{REV}.yang": text("m", REV, "w"), "d1/m@.yang": text("m", "", "w"), "d2/m@.yang": text("m", "", "w")})
        for dirs in [(), ("d2",), ("d2", "d1"), ("d1", "d1", "d2"), ("/abs/x", "d1"), ("../up",), (".",), ("d1/",)]:
            disk = {f"{d.rstrip('/')}/m.yang": text("m", "", "c" + str(i)) for i, d in enumerate(("d1", "d2", "/abs/x", "../up"))}
            disk["m.yang"] = text("m", "", "c9")
            files(x, disk)
            want = {"d1": "c0", "d2": "c1", "/abs/x": "c2", "../up": "c3", ".": "c9", "d1/": "c0"}.get(dirs[0]) if dirs else None
            r = model(x, lib(entry("m")), dirs)
            if want is None:
                x.expect(r == ("raise", "ModuleNotFound"), "module-found", "SchemaData._load_module", f"without directories the module gives {r[1]!r}, expected ModuleNotFound")
            else:
                x.expect(r[0] == "ok" and names(x, r[1]) == {want}, "module-found", "SchemaData._load_module", f"search path {dirs} gives {names(x, r[1]) if r[0] == 'ok' else r[1]!r}, expected the module of {dirs[0]}")
    ck.scenario("search/plain", plain, None, CFG)

    def unreadable(x):
        for first, second, rev in itertools.product(NOFILE, NOFILE, ["", REV]):
            disk = {f"d1/m@{rev}.yang": first, "d1/m.yang": second, "d2/m.yang": text("m", rev, "c0")}
            files(x, disk)
            r = model(x, lib(entry("m", rev)))
            x.expect(r[0] == "ok" and names(x, r[1]) == {"c0"}, "module-found", "SchemaData._load_module", f"m@{rev} with files {first}, {second}, and right in the second directory, gives {r[1]!r}")
    ck.scenario("search/unreadable", unreadable, None, CFG)

    def sub(x):
        for st in itertools.product(STATES, repeat=2):
            for rev in ("", REV):
                paths = [f"d1/s@{rev}.yang", "d1/s.yang"] if rev else ["d1/s.yang", "d2/s.yang"]
                one(x, "s", rev, paths, st, {"d1/m.yang": text("m", "", "top", "include s;")}, lib(entry("m", submodule=[{"name": "s", "revision": rev}])), {"top"}, dict(kind="submodule", extra="m"))
    ck.scenario("search/submodule", sub, None, CFG)


def one(x, name, rev, paths, st, more={}, library=None, base=set(), kw={}):
    disk = {p: content(s, name, rev, f"c{i}", **kw) for i, (p, s) in enumerate(zip(paths, st))}
    disk.update(more)
    files(x, disk)
    hit = next((i for i, s in enumerate(st) if s in ("right", "broken")), None)
    exp = "ModuleNotFound" if hit is None else "UnexpectedInput" if st[hit] == "broken" else f"c{hit}"
    r = model(x, library or lib(entry(name, rev)))
    what = ", ".join(f"{p}: {s}" for p, s in zip(paths, st))
    got = r[1] if r[0] == "raise" else (sorted(names(x, r[1]) - base) or ["nothing"])[0]
    x.expect(got == exp, "module-found", "SchemaData._load_module", f"{name}@{rev} with files {what} gives {got!r}, expected {exp}", x.last.loc if r[0] == "raise" else None)
    if got == exp == "ModuleNotFound":
        f = [getattr(x.I.force(x.attr(x.last.exc, a)), "val", "?") for a in ("name", "rev")]
        x.expect(f == [name, rev], "module-found", "ModuleNotFound", f"ModuleNotFound for {name}@{rev} names {f}")
    if r[0] == "ok" and got == exp:
        md = x.call(x.attr(x.attr(r[1], "schema_data"), "modules"), "get", Lst("tuple", [K(name), K(rev)]))
        p = getattr(x.I.force(x.attr(md, "path")), "val", "?")
        x.expect(p == paths[hit], "module-recorded", "ModuleData.path", f"the path of {name}@{rev} is recorded as {p!r}, expected {paths[hit]!r}")


def plain(x, v):
    v = x.I.force(v)
    if isinstance(v, Lst):
        t = [plain(x, i) for i in v.items]
        return tuple(t) if v.kind == "tuple" else frozenset(t) if v.kind in ("set", "frozenset") else t
    if isinstance(v, Dct):
        return {plain(x, k): plain(x, w) for k, w in v.entries}
    return getattr(v, "val", repr(v))


def recorded(ck):
    """What the library keeps of YANG library data."""
    disk = {"d1/m.yang": text("m", REV, "mc", "import n { prefix nn; } import o { prefix oo; revision-date 2018-01-01; } include s1; include s2; feature f; feature g;"),
            "d1/n@2017-01-01.yang": text("n", "2017-01-01", "nc", "feature f;"), "d2/n@2018-01-01.yang": text("n", "2018-01-01", "nd", "feature f;"), "d2/o@2018-01-01.yang": text("o", "2018-01-01", "oc"),
            "d2/s1.yang": text("s1", "", "sc", "m", "submodule"), "d2/s2@2019-01-01.yang": text("s2", "2019-01-01", "tc", "m", "submodule"), "d1/p.yang": text("p", "", "pc")}
    ents = [entry("m", REV, feature=["f", "g"], submodule=[{"name": "s1", "revision": ""}, {"name": "s2", "revision": "2019-01-01"}]), entry("n", "2017-01-01", **{"conformance-type": "import"}), entry("n", "2018-01-01", feature=["f"]),
            entry("o", "2018-01-01", **{"conformance-type": "import"}), entry("p", **{"yangson-yl:keep-obsolete": True})]

    def t(x):
        ids = set()
        for order in list(itertools.permutations(ents))[::7]:
            files(x, disk)
            library = lib(*order)
            r = model(x, library)
            if not x.expect(r[0] == "ok", "valid-model-accepted", "SchemaData", f"valid YANG library data give {r[1]!r}", x.last.loc if r[0] == "raise" else None):
                return
            dm = r[1]
            sd = x.attr(dm, "schema_data")
            at = lambda o, n: plain(x, x.attr(o, n))
            same = lambda got, exp, what: x.expect(got == exp, "module-recorded", what, f"{what} is {got!r}, expected {exp!r}")
            M = [("m", REV), ("n", "2017-01-01"), ("n", "2018-01-01"), ("o", "2018-01-01"), ("p", ""), ("s1", ""), ("s2", "2019-01-01")]
            mods = {plain(x, k): v for k, v in x.I.force(x.attr(sd, "modules")).entries}
            same(set(mods), set(M), "SchemaData.modules")
            same(at(sd, "implement"), {"m": REV, "n": "2018-01-01", "p": ""}, "SchemaData.implement")
            own = {("s1", ""): ("m", REV), ("s2", "2019-01-01"): ("m", REV)}
            for mid in M:
                md = mods.get(mid)
                if md is None:
                    continue
                same(at(md, "yang_id"), mid, "ModuleData.yang_id")
                same(at(md, "main_module"), own.get(mid, mid), "ModuleData.main_module")
                same(frozenset(at(md, "features")), frozenset({("m", REV): ["f", "g"], ("n", "2018-01-01"): ["f"]}.get(mid, [])), "ModuleData.features")
                same(at(md, "keep_obsolete"), mid == ("p", ""), "ModuleData.keep_obsolete")
                same(frozenset(at(md, "submodules")), frozenset(own if mid[0] == "m" else []), "ModuleData.submodules")
                same(at(md, "path"), {"m": "d1/m.yang", "p": "d1/p.yang", "s1": "d2/s1.yang", "s2": "d2/s2@2019-01-01.yang", "o": "d2/o@2018-01-01.yang"}.get(mid[0], f"d{1 if mid[1] < '2018' else 2}/n@{mid[1]}.yang"), "ModuleData.path")
                if mid[0] not in ("s1", "s2"):
                    same(at(md, "xml_namespace"), "urn:" + mid[0], "ModuleData.xml_namespace")
                same(at(md, "prefix_map"), {"m": {"m": ("m", REV), "nn": ("n", "2018-01-01"), "oo": ("o", "2018-01-01")}, "s1": {"x": ("m", REV)}, "s2": {"x": ("m", REV)}}.get(mid[0], {mid[0]: mid}), "ModuleData.prefix_map")
                st = x.attr(md, "statement")
                same((at(st, "keyword"), at(st, "argument")), ("submodule" if mid in own else "module", mid[0]), "ModuleData.statement")
            same(names(x, dm), {"mc", "nd", "pc", "sc", "tc"}, "implemented modules")
            same(at(dm, "yang_library"), library, "DataModel.yang_library")
            same(at(x.attr(dm, "schema"), "description"), "Data model ID: the-id", "DataModel description")
            i = x.attempt(lambda: x.call(dm, "module_set_id"))
            ids.add(str(plain(x, i[1]) if i[0] == "ok" else i))
        exp = hashlib.sha1("".join(sorted("@".join(m) for m in M)).encode("ascii")).hexdigest()
        x.expect(ids == {exp}, "module-set-id", "DataModel.module_set_id", f"the module set id is {sorted(ids)}, expected {exp}")
    ck.scenario("recorded", t, None, CFG)

    def ff(x):
        for path, desc in [(("d1", "d2"), None), (("d2", "d1"), K("my words")), (None, None)]:
            d = dict(disk, **{"lib/yl.json": "the library text", "m.yang": disk["d1/m.yang"]})
            d.update({k.split("/")[1]: v for k, v in disk.items()} if path is None else {})
            opened = files(x, d)
            seen = []
            x.I.extstub["json.loads"] = lambda I, a, kw: (seen.append(plain(x, a[0])), pydict(lib(*ents)))[1]
            args = [K("lib/yl.json")] + ([Lst("tuple", [K(p) for p in path])] if path else []) + ([desc] if desc is not None else [])
            r = x.attempt(lambda: x.I.call(x.I.getattr_(x.p.cls("DataModel"), "from_file"), args))
            x.expect(r[0] == "ok" and names(x, r[1]) == {"mc", "nd", "pc", "sc", "tc"}, "from-file", "DataModel.from_file", f"from_file gives {r[1]!r}", x.last.loc if r[0] == "raise" else None)
            x.expect(seen == ["the library text"], "from-file", "DataModel.from_file", f"from_file decodes {seen}, expected the text of the file")
            if r[0] == "ok":
                g = plain(x, x.attr(x.attr(r[1], "schema"), "description"))
                x.expect(g == (desc.val if desc is not None else "Data model ID: the-id"), "from-file", "DataModel.from_file", f"the description is {g!r}")
            bad = [o for o in opened if o[1] not in ("r", "rt") or str(o[2]).lower().replace("-", "") != "utf8"]
            x.expect(not bad, "from-file", "open", f"files are opened as {bad}, expected reading as UTF-8")
        files(x, disk)
        r = x.attempt(lambda: x.I.call(x.I.getattr_(x.p.cls("DataModel"), "from_file"), [K("nowhere.json")]))
        x.expect(r == ("raise", "FileNotFoundError"), "from-file", "DataModel.from_file", f"a library file that is not there gives {r[1]!r}")
    ck.scenario("from-file", ff, None, CFG)


def run(ck):
    ck.floor = 2600
    recorded(ck)
    search(ck)
