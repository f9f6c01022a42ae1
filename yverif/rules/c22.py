"""C22: the exit status of the command-line tools tells what went wrong.

Both entry points are run abstractly.  The environment (files, json, pickle) and
the library operations they call are replaced by models that succeed or fail
with each exception the real ones may raise."""
import argparse, ast, itertools, json
from .common import *
from ..interp import Native

CFG = Config(steps=10**7, rec=120, depth=400)
OSERR = ["FileNotFoundError", "PermissionError", "IsADirectoryError", "NotADirectoryError", "OSError"]
UNPICKLE = ["pickle.UnpicklingError", "builtins.EOFError", "builtins.AttributeError", "builtins.ImportError", "builtins.ModuleNotFoundError", "builtins.IndexError"]


class Exit(Exception):
    pass


def value(x, v):
    v = x.I.force(v)
    if isinstance(v, Lst):
        return [value(x, i) for i in v.items]
    if isinstance(v, Dct):
        return {value(x, k): value(x, w) for k, w in v.entries}
    if isinstance(v, K):
        return v.val
    if isinstance(v, Ext):
        return v.name
    raise Unsupported(f"plain value expected, got {v!r}")


def lift(v):
    if isinstance(v, (list, tuple)):
        return Lst("tuple" if isinstance(v, tuple) else "list", [lift(i) for i in v])
    return v if isinstance(v, V) else K(v)


def natives(o, **fns):
    o.exact = False
    for n, f in fns.items():
        o.fields[n] = Native(f, n)
    return o


class Shell:
    """The environment of one run of a command."""

    def __init__(self, x, argv, files=(), env=None):
        self.x, self.argv, self.env = x, list(argv), dict(env or {})
        self.files = dict(files)        # name -> text, or the name of an exception of open, or ("read", exception)
        self.out, self.err, self.opened, self.dumped = [], [], [], []
        I = x.I
        I.extstub.update({"builtins.open": self.open, "io.open": self.open, "builtins.print": self.print, "argparse.ArgumentParser": self.parser, "sys.exit": self.exit, "builtins.exit": self.exit,
                          "os.environ.get": self.getenv, "os.getenv": self.getenv, "json.load": self.load, "json.loads": self.loads, "json.dump": self.dump, "json.dumps": self.dumps,
                          "importlib.metadata.version": lambda I, a, kw: K("0"), "sys.stderr.write": lambda I, a, kw: self.err.append(self.x.I.str_(a[0])) or NONE,
                          "sys.stdout.write": lambda I, a, kw: self.out.append(self.x.I.str_(a[0])) or NONE, "sys.stdout.close": lambda I, a, kw: NONE, "sys.stdout.flush": lambda I, a, kw: NONE,
                          "pickle.load": self.unpickle, "pickle.dump": self.pickle})
        I.extconst["sys.argv"] = lift(["prog"] + list(argv))
        self.pickled = None             # object found in the pickle, or name of an exception
        self.picklefail = None

    # --- streams
    def stream(self, kw, a=None):
        f = self.x.I.force(a if a is not None else kw.get("file", NONE))
        if isinstance(f, Ext) and f.name == "sys.stderr":
            return self.err
        if f is NONE or isinstance(f, Ext) and f.name == "sys.stdout" or getattr(f, "val", 0) is None:
            return self.out
        for o in self.opened:
            if o["obj"] is f:
                return o["data"]
        raise Unsupported(f"output to {f!r}")

    def print(self, I, a, kw):
        s = self.stream(kw)
        s.extend(I.str_(v) for v in a)
        return NONE

    def open(self, I, a, kw):
        nm = value(self.x, a[0])
        mode = value(self.x, a[1]) if len(a) > 1 else value(self.x, kw["mode"]) if "mode" in kw else "r"
        t = self.files.get(nm, "FileNotFoundError" if "r" in mode else "")
        if t in OSERR:
            I.raise_ext("builtins." + t)
        f = Obj(Ext("io.TextIOWrapper"), "file:" + nm)
        rec = {"name": nm, "mode": mode, "obj": f, "data": [], "closed": False, "encoding": value(self.x, kw["encoding"]) if "encoding" in kw else None}
        self.opened.append(rec)

        def close(I, a, kw):
            rec["closed"] = True
            return NONE

        def read(I, a, kw):
            if isinstance(t, tuple):
                I.raise_ext(t[1])
            return K(t)
        return natives(f, __enter__=lambda I, a, kw: f, __exit__=close, close=close, read=read, write=lambda I, a, kw: rec["data"].append(I.str_(a[0])) or NONE, flush=lambda I, a, kw: NONE)

    # --- json and pickle
    def loads(self, I, a, kw):
        t = value(self.x, a[0])
        try:
            return pyval(json.loads(t))
        except ValueError:
            I.raise_ext("json.decoder.JSONDecodeError", K("broken JSON"))

    def load(self, I, a, kw):
        return self.loads(I, [I.call(I.getattr_(a[0], "read"), [], {})], {})

    def dump(self, I, a, kw):
        self.stream({}, kw.get("fp", a[1] if len(a) > 1 else NONE)).append(a[0])
        return NONE

    def dumps(self, I, a, kw):
        return a[0]

    def unpickle(self, I, a, kw):
        if self.pickled in UNPICKLE:
            I.raise_ext(self.pickled)
        return self.pickled

    def pickle(self, I, a, kw):
        if self.picklefail:
            I.raise_ext(self.picklefail)
        self.dumped.append((I.force(a[0]), next((o["name"], o["mode"]) for o in self.opened if o["obj"] is I.force(a[1]))))
        return NONE

    def getenv(self, I, a, kw):
        n = value(self.x, a[0])
        d = a[1] if len(a) > 1 else kw.get("default", NONE)
        return K(self.env[n]) if n in self.env else d

    def exit(self, I, a, kw):
        I.raise_ext("builtins.SystemExit", *(a or [K(0)]))

    # --- argparse: the recorded declaration is handed to the real one
    def parser(self, I, a, kw):
        p = argparse.ArgumentParser(prog="prog", add_help=False, exit_on_error=False)
        p.error = lambda m: (_ for _ in ()).throw(Exit(m))
        return self.group(p)

    def group(self, p):
        def add(I, a, kw):
            d = {k: value(self.x, v) for k, v in kw.items() if k not in ("help", "version")}
            if isinstance(d.get("type"), str):
                d["type"] = {"builtins.str": str, "builtins.int": int}[d["type"]]
            if d.get("action") == "version":
                d["version"] = "0"
            p.add_argument(*[value(self.x, v) for v in a], **d)
            return NONE

        def parse(I, a, kw):
            try:
                ns = p.parse_args(self.argv)
            except (Exit, argparse.ArgumentError, SystemExit) as e:
                raise Unsupported(f"arguments {self.argv} are not accepted: {e}")
            o = Obj(Ext("argparse.Namespace"), "args")
            o.exact = False
            for k, v in vars(ns).items():
                o.fields[k] = lift(v)
            return o
        return natives(Obj(Ext("argparse.ArgumentParserModel"), "parser"), add_argument=add, parse_args=parse, add_mutually_exclusive_group=lambda I, a, kw: self.group(p.add_mutually_exclusive_group(required=value(self.x, kw["required"]) if "required" in kw else False)),
                       add_argument_group=lambda I, a, kw: self.group(p.add_argument_group()))


def pyval(d):
    if isinstance(d, dict):
        return Dct([(K(k), pyval(v)) for k, v in d.items()])
    if isinstance(d, list):
        return Lst("list", [pyval(v) for v in d])
    return K(d)


def leaves(p):
    """Concrete exceptions of the library."""
    root = p.cls("YangsonException")
    return sorted((c for c in p.subclasses(root) if not c.subs or "InstanceException" == c.name), key=lambda c: c.name)


def make(x, cls):
    """An instance of an exception class with plausible arguments."""
    r = x.p.find(cls, "__init__")
    args = []
    if r and isinstance(r[1], Fn):
        for a in r[1].node.args.args[1:]:
            n = a.arg
            if n == "parser":
                args.append(x.I.instantiate(x.p.cls("Parser"), [K("some\ntext")], {}))
            elif n == "instance":
                args.append(x.root_)
            elif n in ("qn", "mid"):
                args.append(lift(("m", "n")))
            elif n == "identities":
                args.append(lift([("m", "n")]))
            else:
                args.append(K("text"))
    return x.I.instantiate(cls, args, {})


class Model:
    """Stands for a data model; any operation may be told to fail."""

    def __init__(self, x, fail=()):
        self.x, self.calls = x, []
        fail = dict(fail)

        def op(name, result):
            def f(I, a, kw):
                self.calls.append((name, a, kw))
                e = fail.get(name)
                if isinstance(e, Cls):
                    I.raise_obj(make(x, e))
                if e:
                    I.raise_ext(e)
                return result
            return f
        self.inst = natives(Obj(Ext("InstanceModel"), "instance"), validate=op("validate", NONE))
        self.dm = natives(Obj(Ext("DataModelModel"), "datamodel"), from_raw=op("from_raw", self.inst), module_set_id=op("module_set_id", K("THE-ID")), ascii_tree=op("ascii_tree", K("THE-TREE")), schema_digest=op("schema_digest", K("THE-DIGEST")))
        new = op("DataModel", self.dm)
        x.I.stubs["DataModel"] = new

    def of(self, name):
        return [(a, kw) for n, a, kw in self.calls if n == name]


def bind(call, params, defaults):
    a, kw = call
    d = dict(zip(params, defaults))
    d.update(zip(params, a))
    d.update(kw)
    return d


def status(x, fn):
    """Exit status of the process, or the exception it dies with."""
    r = x.attempt(fn)
    if r[0] == "raise":
        if r[1] == "SystemExit":
            v = x.I.force(x.last.exc.fields["args"].items[0])
            return 0 if getattr(v, "val", 1) is None else v.val if isinstance(v, K) and isinstance(v.val, int) else 1
        return r[1]
    v = r[1]
    if not isinstance(v, K) or not (v.val is None or isinstance(v.val, int)):
        return f"result {v!r}"
    return v.val or 0


def judge(x, sh, what, got, want, construct, out=None):
    want = want if isinstance(want, tuple) else (want,)
    x.expect(got in want, "exit-status", construct, f"{what}: {'dies with ' + got if isinstance(got, str) else 'exit status ' + str(got)}, expected exit status {' or '.join(map(str, want))}", x.last.loc if isinstance(got, str) else None)
    if got not in want:
        return False
    if got:
        x.expect(bool(sh.err) and not sh.out, "failure-reported", construct, f"{what}: a failure has to be reported on the standard error output (and there only)")
    else:
        x.expect(not sh.err, "success-is-quiet", construct, f"{what}: success, but something is reported on the standard error output")
    return True


def run_main(x, argv, files=(), env=None, fail=(), pickled=None, picklefail=None, direct=None):
    sh = Shell(x, argv, files, env)
    m = Model(x, fail)
    sh.pickled = m.dm if pickled is True else pickled
    sh.picklefail = picklefail
    f = x.p.func("__main__", "main")
    x.last = None
    got = status(x, lambda: x.I.call(f, [], direct or {}))
    return sh, m, got


FILES = {"lib": "LIBTEXT", "inst": '{"m:x": 1}', "pick": "PICKLE"}


def scene(x):
    x.root_ = x.sc.root(x.sc.objd({}))


def tool(ck):
    W = main_world(ck)
    C = "yangson.__main__.main"
    ops = {"none": [], "id": ["-i"], "tree": ["-t"], "digest": ["-d"], "dump": ["-D", "out"], "validate": ["-v", "inst"]}

    def files(x):
        scene(x)
        for n, e in itertools.product(ops, OSERR + [("read", "builtins.UnicodeDecodeError")]):
            sh, m, got = run_main(x, ops[n] + ["lib"], {**FILES, "lib": e})
            judge(x, sh, f"{n}, YANG library fails with {e}", got, 1, C)
            sh, m, got = run_main(x, ops[n] + ["-P", "pick"], {**FILES, "pick": e}, pickled=True)
            if not isinstance(e, tuple):
                judge(x, sh, f"{n}, pickled model fails with {e}", got, 1, C)
        for n, e in itertools.product(ops, UNPICKLE):
            sh, m, got = run_main(x, ops[n] + ["-P", "pick"], FILES, pickled=e)
            judge(x, sh, f"{n}, unpickling fails with {e}", got, 1, C)
        for e, src in itertools.product(OSERR + [("read", "builtins.UnicodeDecodeError"), "{", ""], (["lib"], ["-P", "pick"])):
            sh, m, got = run_main(x, ["-v", "inst"] + src, {**FILES, "inst": e}, pickled=True)
            judge(x, sh, f"instance data fail with {e!r}", got, 1, C)
            x.expect(not m.of("from_raw"), "exit-status", C, "unreadable instance data are used")
        for e in OSERR:
            sh, m, got = run_main(x, ["-D", "out", "lib"], {**FILES, "out": e})
            judge(x, sh, f"output of --dump fails with {e}", got, (1,), C)
        sh, m, got = run_main(x, ["-D", "out", "lib"], FILES, picklefail="pickle.PicklingError")
        judge(x, sh, "pickling fails", got, (1, 2), C)
    ck.scenario("yangson/files", files, W, CFG)

    exc = [c for c in leaves(ck.p)]
    ck.oblige(len(exc) >= 30, "exceptions-known", "YangsonException", f"{len(exc)} concrete exceptions of the library")

    def models(x):
        scene(x)
        for n, e in itertools.product(ops, exc):
            sh, m, got = run_main(x, ops[n] + ["lib"], FILES, fail={"DataModel": e})
            judge(x, sh, f"{n}, the data model fails with {e.name}", got, 2, C)
        for n in ops:
            sh, m, got = run_main(x, ops[n] + ["lib"], FILES, fail={"DataModel": "builtins.UnicodeDecodeError"})
            judge(x, sh, f"{n}, a module cannot be decoded", got, (1, 2), C)
    ck.scenario("yangson/model", models, W, CFG)

    def instance(x):
        scene(x)
        for src, e in itertools.product((["lib"], ["-P", "pick"], ["-S", "m:op", "lib"]), exc):
            for f in ("from_raw", "validate"):
                sh, m, got = run_main(x, ["-v", "inst"] + src, FILES, fail={f: e}, pickled=True)
                judge(x, sh, f"{f} fails with {e.name}", got, 3, C)
    ck.scenario("yangson/instance", instance, W, CFG)

    def options(x):
        scene(x)
        scopes = {s: x.I.getattr_(x.p.cls("ValidationScope"), s) for s in ("all", "syntax", "semantics")}
        ctypes = {s: x.I.getattr_(x.p.cls("ContentType"), s) for s in ("all", "config", "nonconfig")}
        for src, mode in itertools.product((["lib"], ["-P", "pick"], ["--pickled", "pick"]), ("argv", "direct")):
            pick = src[-1] == "pick"
            base = {"infile": K(src[-1]), "pickled": K(pick)}
            go = lambda argv, **kw: run_main(x, argv + src, FILES, pickled=True, direct={**base, **{k: lift(v) for k, v in kw.items()}} if mode == "direct" else None)
            for n, flags, kw, out, op in (("id", ("-i", "--id"), {"set_id": True}, "THE-ID", "module_set_id"), ("tree", ("-t", "--tree"), {"tree": True}, "THE-TREE", "ascii_tree"),
                                          ("digest", ("-d", "--digest"), {"digest": True}, "THE-DIGEST", "schema_digest"), ("nothing", ((),), {}, None, None)):
                for fl in flags:
                    sh, m, got = go([fl] if fl else [], **kw)
                    if judge(x, sh, f"--{n} of {src[-1]}", got, 0, C):
                        o = [getattr(v, "val", "?") for v in sh.out]
                        x.expect(o == ([out] if out else []), "printed", C, f"--{n} prints {o}, expected {out}")
            for fl in ([], ["-n"], ["--no-types"]):
                sh, m, got = go(["-t"] + fl, tree=True, no_types=bool(fl))
                if judge(x, sh, f"--tree {fl}", got, 0, C):
                    nt = value(x, bind(m.of("ascii_tree")[0], ["no_types", "val_count"], [K(False), K(False)])["no_types"])
                    x.expect(nt == bool(fl), "option-respected", C, f"--tree with {fl or 'no option'}: ascii_tree is called with no_types={nt}")
            for fl in ("-D", "--dump"):
                sh, m, got = go([fl, "out"], dump="out")
                if judge(x, sh, "--dump", got, 0, C):
                    x.expect(len(sh.dumped) == 1 and sh.dumped[0][0] is m.dm and sh.dumped[0][1][0] == "out" and "w" in sh.dumped[0][1][1] and "b" in sh.dumped[0][1][1], "dumped", C, "--dump writes the data model to the named file")
            for s, c, sub in itertools.product([None, *scopes], [None, *ctypes], [None, "m:op"]):
                argv, kw = ["-v", "inst"], {"validate": "inst"}
                for fl, v, key, conv in (("-s", s, "scope", scopes), ("-c", c, "ctype", ctypes), ("-S", sub, "subschema", None)):
                    if v:
                        argv += [fl, v]
                        kw[key] = conv[v] if conv else v
                sh, m, got = go(argv, **kw)
                what = f"--validate with scope {s}, content type {c}, subschema {sub}"
                if judge(x, sh, what, got, 0, C):
                    x.expect(len(m.of("from_raw")) == 1 and len(m.of("validate")) == 1, "validated", C, what + ": the instance is read and validated once")
                    if len(m.of("from_raw")) == 1 and len(m.of("validate")) == 1:
                        b = bind(m.of("from_raw")[0], ["robj", "subschema"], [NONE, NONE])
                        x.expect(value(x, b["robj"]) == {"m:x": 1} and value(x, b["subschema"]) == sub, "validated", C, f"{what}: from_raw is called with {b}")
                        b = bind(m.of("validate")[0], ["scope", "ctype"], [scopes["all"], ctypes["config"]])
                        x.expect(x.I.force(b["scope"]) is x.I.force(scopes[s or "all"]) and x.I.force(b["ctype"]) is x.I.force(ctypes[c or "all"]), "option-respected", C, f"{what}: validate is called with {b}")
            x.expect(bool(pick) == (not m.of("DataModel")), "model-source", C, f"the model is taken from {'the pickle' if pick else 'YANG library'}")
        for path, e, flag in itertools.product([None, "a", "a:b:c", "/x/y:."], [None, "e", "e:f"], ("-p", "--path", "direct")):
            d = {"infile": K("lib"), "path": lift(path), "set_id": K(True)} if flag == "direct" else None
            sh, m, got = run_main(x, ["-i"] + ([flag, path] if path else []) + ["lib"], FILES, {"YANG_MODPATH": e} if e else {}, direct=d)
            want = (path or e or ".").split(":")
            if judge(x, sh, f"path {path}, YANG_MODPATH {e}", got, 0, C):
                b = bind(m.of("DataModel")[0], ["yltxt", "mod_path", "description"], [NONE, lift((".",)), NONE])
                x.expect(value(x, b["yltxt"]) == "LIBTEXT" and value(x, b["mod_path"]) == want, "search-path", C, f"path {path}, YANG_MODPATH {e}: the data model gets {b}, expected directories {want}")
    ck.scenario("yangson/options", options, W, CFG)


# --- convert8525 ------------------------------------------------------------
YANG = "yang-modules/ietf"
MS, YL = "ietf-yang-library:modules-state", "ietf-yang-library:yang-library"


class Ietf(World):
    """The data model described by a YANG library text, with modules of the repository."""

    def __init__(self, p, text):
        from ..yangtext import parse
        self.doc = json.loads(text)
        mods = {}
        for e in self.doc[MS]["module"]:
            with open(f"{p.source.repo}/{YANG}/{e['name']}@{e['revision']}.yang", encoding="utf-8") as f:
                r = parse(f.read())
            if r[0] != "ok":
                raise Unsupported(f"module {e['name']} cannot be parsed")
            conv = lambda t: (t[1], t[2], [conv(s) for s in t[3]], t[0])
            mods[e["name"]] = conv(r[1])
        super().__init__(p, mods.values())

    def lib(self):
        return self.doc

    def install(self, I):
        super().install(I)
        del I.stubs["XPathParser"]


def convert(x, argv, files, real=True, fail=None, env=None):
    from ..world import clone
    sh = Shell(x, argv, files, env)
    sh.models = []

    def new(I, a, kw):
        b = bind((a, kw), ["yltxt", "mod_path", "description"], [NONE, lift((".",)), NONE])
        text = value(x, b["yltxt"])
        doc = json.loads(text)
        ver = next(e["revision"] for e in doc[MS]["module"] if e["name"] == "ietf-yang-library")
        sh.models.append((ver, value(x, b["mod_path"])))
        if fail:
            if isinstance(fail, Cls):
                I.raise_obj(make(x, fail))
            I.raise_ext(fail)
        return clone(world(x.check, "ietf" + ver, lambda p: Ietf(p, text)).prepare().dm)
    x.I.stubs["DataModel"] = new
    f = x.p.func("convert8525", "main")
    x.last = None
    got = status(x, lambda: x.I.call(f, [], {}))
    return sh, got


def instances():
    """Contents of YANG library of RFC 8525."""
    loc = {"location": ["http://x/1", "http://x/2"]}
    sub = {"submodule": [{"name": "s1", "revision": "2020-01-01", **loc}, {"name": "s2"}]}
    m = lambda n, **kw: {"name": n, "namespace": "urn:" + n, **kw}
    rev = {"revision": "2020-02-02"}
    a = [("plain", [m("a")], []), ("revision", [m("a", **rev)], []), ("features", [m("a", feature=["f", "g"], **rev), m("b", feature=["f"])], []), ("locations", [m("a", **rev, **loc)], []),
         ("submodules", [m("a", **rev, **sub)], [m("t", revision="", **sub)]), ("deviation", [m("a", deviation=["b"], **rev), m("b", **rev)], []), ("deviations", [m("a", deviation=["b", "c"]), m("b", **rev), m("c")], []),
         ("self", [m("a", deviation=["a"], **rev)], []), ("imports", [m("a")], [m("t", revision=""), m("t", **rev), m("u", revision="2001-01-01", **loc)]), ("own-import", [m("a", **rev)], [m("a", revision="2000-01-01")]),
         ("only-imports", [], [m("t", revision="")]), ("empty", [], [])]
    for n, mods, imps in a:
        ms = {"name": "one", **({"module": mods} if mods else {}), **({"import-only-module": imps} if imps else {})}
        yield n, {"content-id": "c1", "module-set": [ms], "schema": [{"name": "sc", "module-set": ["one"]}], "datastore": [{"name": "ietf-datastores:running", "schema": "sc"}]}
    one = {"name": "one", "module": [m("a", **rev, feature=["f"]), m("b")], "import-only-module": [m("t", revision="2001-01-01")]}
    two = {"name": "two", "module": [m("b"), m("c", deviation=["b"])], "import-only-module": [m("t", revision="2001-01-01"), m("a", **rev), m("t", revision="")]}
    three = {"name": "three", "import-only-module": [m("b", revision=""), m("a", **rev)]}
    for n, sets in (("two-sets", ["one", "two"]), ("sets-reversed", ["two", "one"]), ("three-sets", ["three", "two", "one"]), ("one-of-three", ["two"]), ("imports-last", ["one", "three"])):
        yield n, {"content-id": "c2", "module-set": [one, two, three], "schema": [{"name": "other", "module-set": ["three"]}, {"name": "sc", "module-set": sets}],
                  "datastore": [{"name": "ietf-datastores:operational", "schema": "other"}, {"name": "ietf-datastores:running", "schema": "sc"}, {"name": "ietf-datastores:startup", "schema": "other"}]}


def reference(lib, schema):
    sets = {s["name"]: s for s in lib["module-set"]}
    mods = {}

    def put(e, mod, conf):
        def base(e):
            d = {"name": e["name"], "revision": e.get("revision", "")}
            if e.get("location"):
                d["schema"] = e["location"][0]
            return d
        d = {**base(e), "conformance-type": conf, "namespace": e["namespace"]}
        if e.get("submodule"):
            d["submodule"] = sorted(map(base, e["submodule"]), key=str)
        if e.get("feature"):
            d["feature"] = sorted(e["feature"])
        if e.get("deviation"):
            d["deviation"] = sorted(({"name": n, "revision": next(o.get("revision", "") for o in mod if o["name"] == n)} for n in e["deviation"]), key=str)
        k = (d["name"], d["revision"])
        if mods.get(k, {}).get("conformance-type") != "implement":
            mods[k] = d
    for s in next(c for c in lib["schema"] if c["name"] == schema)["module-set"]:
        for conf, key in (("implement", "module"), ("import", "import-only-module")):
            for e in sets[s].get(key, []):
                put(e, sets[s].get("module", []), conf)
    return mods


def converter(ck):
    C = "yangson.convert8525.main"
    W = main_world(ck)
    good = dict(instances())

    def result(x, sh, name):
        data = [d for o in sh.opened if "w" in o["mode"] for d in o["data"]] if name else sh.out
        o = [d for d in data if not (isinstance(d, K) and isinstance(d.val, str))]
        if len(o) != 1:
            return None
        return value(x, o[0])

    def results(x, part):
        scene(x)
        for n in part:
            lib = good[n]
            for argv, schema in ([], "sc"), (["-d", "running"], "sc"), (["--schema", "sc"], "sc"), *(((["-s", "other"], "other"), (["--datastore", "startup"], "other")) if len(lib["schema"]) > 1 else ()):
                for out in (None, "out"):
                    if out and n not in ("plain", "two-sets"):
                        continue
                    sh, got = convert(x, argv + (["-o", out] if out else []) + ["lib"], {"lib": json.dumps({YL: lib})})
                    what = f"{n} with {argv or 'no options'}"
                    if not judge(x, sh, what, got, 0, C):
                        continue
                    r = result(x, sh, out)
                    x.expect(isinstance(r, dict) and list(r) == [MS] and r[MS].get("module-set-id") == lib["content-id"], "converted", C, f"{what}: the result is {r}")
                    if isinstance(r, dict) and MS in r:
                        ms = {}
                        for d in r[MS].get("module", []):
                            ms[(d["name"], d["revision"])] = {k: sorted(v, key=str) if isinstance(v, list) else v for k, v in d.items()}
                        ref = reference(lib, schema)
                        x.expect(len(ms) == len(r[MS].get("module", [])) and ms == ref, "converted", C, f"{what}: modules {ms}, expected {ref}")
                    if out:
                        x.expect(all(o["closed"] for o in sh.opened if "w" in o["mode"]) and [o["name"] for o in sh.opened if "w" in o["mode"]] == ["out"], "converted", C, f"{what}: the output file is written and closed")
    for i in range(8):
        ck.scenario(f"convert8525/results/{i}", lambda x, i=i: results(x, list(good)[i::8]), W, CFG)

    def paths(x):
        scene(x)
        for path, e in itertools.product([None, "a", "a:b"], [None, "e:f"]):
            sh, got = convert(x, (["-p", path] if path else []) + ["lib"], {"lib": json.dumps({YL: good["plain"]})}, env={"YANG_MODPATH": e} if e else {})
            want = (path or e or ".").split(":")
            judge(x, sh, f"path {path}", got, 0, C)
            x.expect(sorted(v for v, _ in sh.models) == ["2016-06-21", "2019-01-04"] and all(d == want for _, d in sh.models), "search-path", C, f"path {path}, YANG_MODPATH {e}: models {sh.models}, expected directories {want}")
    ck.scenario("convert8525/paths", paths, W, CFG)

    def failures(x):
        scene(x)
        ok = json.dumps({YL: good["two-sets"]})
        for e in OSERR + [("read", "builtins.UnicodeDecodeError"), "{", "", "[]", "1", "{}", '{"a": 1}', '{"x:y": 1}', json.dumps({YL: {}}), json.dumps({YL: {"content-id": 1}}), json.dumps({YL: {**good["plain"], "schema": []}}),
                          json.dumps({YL: {**good["plain"], "module-set": [{"name": "one", "module": [{"name": "a"}]}]}}), json.dumps({YL: {**good["plain"], "datastore": [{"name": "running", "schema": "sc"}]}}),
                          json.dumps({YL: {**good["plain"], "@content-id": {"u:v": 1}}}), json.dumps({YL: {**good["plain"], "module-set": [{"name": "one", "module": [{"name": "a", "namespace": "u", "deviation": ["zz"]}]}]}})]:
            sh, got = convert(x, ["lib"], {"lib": e})
            judge(x, sh, f"input {e}", got, 1, C)
        for e in OSERR:
            sh, got = convert(x, ["-o", "out", "lib"], {"lib": ok, "out": e})
            judge(x, sh, f"output fails with {e}", got, 3, C)
        for argv in (["-d", "candidate"], ["-s", "none"], ["--schema", "running"], ["--datastore", "sc"]):
            sh, got = convert(x, argv + ["lib"], {"lib": ok})
            judge(x, sh, f"options {argv}", got, 2, C)
        for lib in ({"content-id": "x"}, {"content-id": "x", "module-set": good["plain"]["module-set"]}):
            for argv in ([], ["-s", "sc"]):
                sh, got = convert(x, argv + ["lib"], {"lib": json.dumps({YL: lib})})
                judge(x, sh, f"no schema, options {argv}", got, 2, C)
        for c in leaves(x.p):
            sh, got = convert(x, ["lib"], {"lib": ok}, fail=c)
            judge(x, sh, f"the data model fails with {c.name}", got, (1, 2), C)
    ck.scenario("convert8525/failures", failures, W, CFG)


def run(ck):
    tool(ck)
    converter(ck)
    ck.floor = 2300
