"""C42: imported modules come before the modules that import them; cycles are
rejected.

All import graphs on four modules.  Every module augments the nodes of the
modules it imports, also those that other modules added there, so that a module
processed before one of its imports finds a node missing."""
import itertools
from .common import *
from ..world import leaf as sleaf, ModelRejected
from .c19 import lazily
from .c28 import plain
from .schema import dump

N = "abcd"
PAIRS = [(i, j) for i in range(4) for j in range(4) if i != j]
IMP = lambda n: S("import", n, S("prefix", "p" + n))
U = lambda c, *s: S("container", c, *s)


def edges(g):
    return frozenset(e for k, e in enumerate(PAIRS) if g >> k & 1)


def classes():
    """One representative of each isomorphism class of digraphs on four nodes."""
    seen, out = set(), []
    for g in range(1 << 12):
        es = edges(g)
        if es in seen:
            continue
        for p in itertools.permutations(range(4)):
            seen.add(frozenset((p[i], p[j]) for i, j in es))
        out.append(es)
    return out


def closure(es):
    d = set(es)
    while True:
        more = {(i, l) for i, j in d for k, l in d if j == k} - d
        if not more:
            return d
        d |= more


def cyclic(es):
    return any(i == j for i, j in closure(es))


def texts(es, place="module"):
    """Modules of the graph and the paths of all nodes they define."""
    mods, subs, want = [], [], set()
    for i, n in enumerate(N):
        deps = [j for a, j in sorted(es) if a == i]
        body = [U("k" + n)]
        want.add(f"/{n}:k{n}")
        for j in deps:
            m = N[j]
            body.append(S("augment", f"/p{m}:k{m}", U("u" + n)))
            want.add(f"/{m}:k{m}/{n}:u{n}")
            # nodes that an imported module added to another imported one
            for l in deps:
                if (j, l) in es:
                    body.append(S("augment", f"/p{N[l]}:k{N[l]}/p{m}:u{m}", sleaf("v" + n)))
                    want.add(f"/{N[l]}:k{N[l]}/{m}:u{m}/{n}:v{n}")
                if l != j and (l, j) not in es and (j, l) in closure(es):
                    body.append(S("augment", f"/p{m}:k{m}", sleaf(f"w{n}{N[l]}")))
                    want.add(f"/{m}:k{m}/{n}:w{n}{N[l]}")
        imps = [IMP(N[j]) for j in deps]
        if place == "submodule":
            # every second import and the augments are in a submodule
            subs.append(S("submodule", n + "s", S("belongs-to", n, S("prefix", "own")), S("revision", "2020-01-01"), *imps, *body[1:]))
            mods.append(module(n, S("include", n + "s"), *imps[::2], body[0]))
        elif place == "all-submodule":
            subs.append(S("submodule", n + "s", S("belongs-to", n, S("prefix", "own")), S("revision", "2020-01-01"), *imps, *body))
            mods.append(module(n, S("include", n + "s")))
        else:
            mods.append(module(n, *imps, *body))
    return mods, subs, want


def library(mods, subs):
    return {m[1]: {"submodule": [{"name": m[1] + "s", "revision": "2020-01-01"}]} if subs else {} for m in mods}


def show_graph(es):
    return ", ".join(f"{N[i]} imports {N[j]}" for i, j in sorted(es)) or "no imports"


def judge(x, es, place, order):
    mods, subs, want = texts(es, place)
    mods = [mods[i] for i in order]
    w = World(x.p, mods, library(mods, subs), subs)
    desc = f"{show_graph(es)} ({place}, listed as {''.join(N[i] for i in order)})"
    try:
        w.prepare()
    except ModelRejected as e:
        c = getattr(e.exc.cls, "name", "?")
        if cyclic(es):
            x.expect(c == "CyclicImports", "cycle-reported-as", "SchemaData._process_imports", f"{desc}: the cycle is reported as {c}", e.loc)
        else:
            x.expect(False, "acyclic-accepted", "SchemaData._process_imports", f"{desc}: there is no cycle, but the model is rejected with {e}", e.loc)
        return
    if not x.expect(not cyclic(es), "cycle-rejected", "SchemaData._process_imports", f"{desc}: the cycle is not reported"):
        return
    sc = w.scene(x.I)
    got = {p for p, d in dump(x, x.I.force(x.attr(sc.dm, "schema"))).items() if p}
    x.expect(got == want, "all-nodes-present", "SchemaData._process_imports", f"{desc}: the schema lacks {sorted(want - got)} and has {sorted(got - want)} in addition")


def run(ck):
    good = world(ck, "c42", lambda p: World(p, [module("m", sleaf("t"))]))
    gs = classes()
    ck.floor = 3300
    perms = list(itertools.permutations(range(4)))
    if ck.tier == "quick":
        jobs = [(es, "module", perms[(k * 7 + q * 5) % 24]) for k, es in enumerate(gs) for q in range(12)] + [(es, "submodule" if (k + q) % 2 else "all-submodule", perms[(k * 5 + q * 11) % 24]) for k, es in enumerate(gs) for q in range(2)]
    else:
        jobs = [(edges(g), "module", perms[g % 24]) for g in range(1 << 12)] + [(es, p, o) for es in gs for p in ("module", "submodule", "all-submodule") for o in perms]
    step = 40
    for k in range(0, len(jobs), step):
        def t(x, part=jobs[k:k + step]):
            for es, place, order in part:
                judge(x, es, place, order)
        lazily(ck, f"graphs/{k // step}", t, good)

    def other(x):
        """Import-only modules, revisions, repeated and self-contained imports."""
        D = lambda n, *b: module(n, *b)
        imp = lambda n, p=None, *s: S("import", n, S("prefix", p or "p" + n), *s)
        cases = {
            "a module imported twice under two prefixes": ([D("a", imp("b"), imp("b", "q"), S("augment", "/q:kb/pb:i", sleaf("x"))), D("b", U("kb", U("i")))], {}, "ok"),
            "a module imported by the module and its submodule": ([D("a", imp("b"), S("include", "as"), S("augment", "/pb:kb", sleaf("x"))), D("b", U("kb"))], {"a": {"submodule": [{"name": "as", "revision": "2020-01-01"}]}}, "ok"),
            "imports through an import-only module": ([D("a", imp("o"), imp("b"), S("augment", "/pb:kb/po:t", sleaf("y"))), D("o", imp("b")), D("b", U("kb"))], {"o": {"conformance-type": "import"}}, None),
            "an import-only module importing an implemented one that imports it": ([D("a", imp("o"), S("container", "ka", S("uses", "po:g"))), D("o", imp("b"), S("grouping", "g", sleaf("z", "pb:t"))), D("b", S("typedef", "t", S("type", "int8")), U("kb"))], {"o": {"conformance-type": "import"}}, "ok"),
            "a chain of ten modules": ([D(f"m{i}", *([imp(f"m{i + 1}"), S("augment", f"/pm{i + 1}:k", U(f"u{i}"))] if i < 9 else []), U("k")) for i in range(10)], {}, "ok"),
            "a chain of ten modules, reversed": ([D(f"m{i}", *([imp(f"m{i - 1}"), S("augment", f"/pm{i - 1}:k", U(f"u{i}"))] if i else []), U("k")) for i in range(10)], {}, "ok"),
            "a cycle of ten modules": ([D(f"m{i}", imp(f"m{(i + 1) % 10}"), U("k")) for i in range(10)], {}, "CyclicImports"),
            "a cycle behind a chain": ([D("z", U("k"))] + [D(f"m{i}", imp(f"m{(i + 1) % 3}"), imp("z"), U("k")) for i in range(3)] + [D("y", imp("m0"))], {}, "CyclicImports"),
            "a module importing itself": ([D("a", imp("a"), U("k")), D("b", U("k"))], {}, "CyclicImports"),
            "only a module importing itself": ([D("a", imp("a"), U("k"))], {}, "CyclicImports"),
            "no implemented module": ([D("a", U("k"))], {"a": {"conformance-type": "import"}}, "ok"),
        }
        sub = [S("submodule", "as", S("belongs-to", "a", S("prefix", "own")), S("revision", "2020-01-01"), imp("b"), S("augment", "/pb:kb", sleaf("w")))]
        for what, (mods, lib, want) in cases.items():
            for k, ms in enumerate((mods, mods[::-1], mods[1::2] + mods[::2])):
                if want is None:
                    continue
                w = World(x.p, ms, lib, sub if "submodule" in repr(lib) else [])
                got = "ok"
                try:
                    w.prepare()
                except ModelRejected as e:
                    got = getattr(e.exc.cls, "name", "?")
                x.expect(got == want, "special-imports", "SchemaData._process_imports", f"{what}: {got}, expected {want}")
    lazily(ck, "special", other, good)
