"""C06: the algebra of schema patterns agrees with its set-theoretic meaning.

A pattern denotes a family of member sets.  `denote` gives the family from the
structure alone; the code's derivatives and nullability are interpreted
abstractly for every pattern, content type, condition outcome, member set and
order of members, and must recognise exactly that family."""
import itertools
import random
from .common import *
from ..spec import cont, leaf, statements
from .c05 import enum, truth, build

CT = {1: "config", 2: "nonconfig", 3: "all"}
NAMES = "abcd"


def M(name, ct=1, when=None): return ("mem", name, ct, when)
def Opt(p): return ("opt", p)
def OptC(p): return ("optc", p)
def P2(p, q): return ("pair", p, q)
def Ch(p, q, ct=3): return ("choice", p, q, ct)
def Cond(p, w): return ("cond", p, w)


def denote(p, ct, T, at="m:c"):
    k = p[0]
    empty = {frozenset()}
    if k == "mem":
        return {frozenset([p[1]])} if (p[2] & ct) and (p[3] is None or T(p[3], (at, p[1]))) else empty
    if k == "opt":
        return denote(p[1], ct, T, at) | empty
    if k == "optc":
        return denote(p[1], ct, T, at) | (empty if ct == 1 else set())
    if k == "pair":
        return {s | t for s in denote(p[1], ct, T, at) for t in denote(p[2], ct, T, at)}
    if k == "choice":
        return (denote(p[1], ct, T, at) | denote(p[2], ct, T, at)) - empty if p[3] & ct else empty
    if k == "cond":
        return denote(p[1], ct, T, at) if T(p[2], (at,)) else empty


def text(p):
    k = p[0]
    if k == "mem":
        return p[1] + {1: "", 2: "!", 3: "*"}[p[2]] + ("?" + p[3] if p[3] else "")
    if k in ("opt", "optc"):
        return k + "(" + text(p[1]) + ")"
    if k == "cond":
        return "if(" + text(p[1]) + ")"
    return f"({text(p[1])} {'&' if k == 'pair' else '|' + {1: 'c', 2: 's', 3: ''}[p[3]]} {text(p[2])})"


def members(p):
    if p[0] == "mem":
        return [p[1]]
    return [m for q in p[1:] if isinstance(q, tuple) for m in members(q)]


def construct(x, p):
    k = p[0]
    sc = x.sc

    def w(name):
        from ..world import atom_expr
        return NONE if name is None else atom_expr(x.I, name)
    if k == "mem":
        return sc.new("Member", K(p[1]), enum(x, "ContentType", CT[p[2]]), w(p[3]))
    if k in ("opt", "optc"):
        f = x.I.getattr_(x.p.cls("SchemaPattern"), "optional" if k == "opt" else "optional_config")
        return x.I.force(x.I.call(f, [construct(x, p[1])]))
    if k == "pair":
        return sc.new("Pair", construct(x, p[1]), construct(x, p[2]))
    if k == "choice":
        o = sc.new("ChoicePattern", construct(x, p[1]), construct(x, p[2]), K("ch"))
        x.I.setattr_(o, "ctype", enum(x, "ContentType", CT[p[3]]))
        return o
    return sc.new("ConditionalPattern", construct(x, p[1]), w(p[2]))


def patterns(ck):
    rnd = random.Random(6)

    def bases(n, full):
        r = [M(n), Opt(M(n)), M(n, 1, "x-w" + n), M(n, 2)]
        if full:
            r += [M(n, 3), Opt(M(n, 2)), Opt(M(n, 1, "x-w" + n)), M(n, 2, "x-w" + n), OptC(M(n, 3))]
        return r

    def wraps(p):
        return [p, Opt(p), Cond(p, "x-q"), Opt(Cond(p, "x-q")), Cond(Opt(p), "x-q")]
    res = list(bases("a", True))
    for a in bases("a", True):
        for b in bases("b", True):
            for q in (P2(a, b), Ch(a, b), Ch(a, b, 1), Ch(a, b, 2)):
                res.append(q)
    for a in bases("a", False):
        for b in bases("b", False):
            for q in (P2(a, b), Ch(a, b), Ch(a, b, 1)):
                res += wraps(q)[1:]
    three = []
    for a, b, c in itertools.product(bases("a", False), bases("b", False), bases("c", False)):
        for f in (P2, Ch):
            for g in (P2, Ch):
                for q in wraps(f(a, b)):
                    three.append(g(q, c))
                    three.append(g(c, q))
    four = []
    for _ in range(400 if ck.tier == "quick" else 4000):
        fs = [rnd.choice((P2, Ch)) for _ in range(3)]
        bs = [rnd.choice(bases(n, True)) for n in NAMES]
        l, r = fs[0](bs[0], bs[1]), fs[1](bs[2], bs[3])
        four.append(rnd.choice(wraps(fs[2](rnd.choice(wraps(l)[:3]), rnd.choice(wraps(r)[:2])))))
    rnd.shuffle(three)
    return res + (three[:350] + four[:120] if ck.tier == "quick" else three + four)


CONS = {"pair": "Pair", "choice": "ChoicePattern", "opt": "Alternative", "optc": "Alternative", "mem": "Member", "cond": "ConditionalPattern"}


def check(ck, p, w):
    ms = sorted(set(members(p)))

    def t(x):
        root = x.sc.root(build(x.sc, {"m:c": {}}))
        node = x.sc.member(root, "m:c")
        pat = construct(x, p)
        x.call(pat, "_eval_when", node)
        T = truth(x)
        cons = CONS[p[0]]
        for ct in (1, 2, 3):
            den = denote(p, ct, T)
            e = enum(x, "ContentType", CT[ct])
            for r in range(len(ms) + 1):
                perms = list(itertools.permutations(ms, r))
                if len(perms) > 6:
                    perms = perms[::5]
                for perm in perms:
                    q = pat
                    for i, m in enumerate(perm):
                        q = x.call(q, "deriv", K(m), e)
                        if q.cls.name == "NotAllowed":
                            break
                    ok = q.cls.name != "NotAllowed" and x.I.truth(x.call(q, "nullable", e))
                    want = frozenset(perm) in den
                    x.expect(ok == want, "pattern-denotation", cons,
                             f"pattern {text(p)} in {CT[ct]} data {'accepts' if ok else 'rejects'} members {' '.join(perm) or '(none)'}, which it should {'accept' if want else 'reject'}")
                    if q.cls.name != "NotAllowed" and not ok:
                        mm = x.attempt(lambda: x.call(q, "_mandatory_members", e))
                        x.expect(mm[0] == "ok" and mm[1] is not NONE, "missing-members-listed", cons,
                                 f"pattern {text(p)} after {' '.join(perm)} cannot tell which members are missing in {CT[ct]} data: {mm[1]}")
            q = x.call(pat, "deriv", K("z"), e)
            x.expect(q.cls.name == "NotAllowed", "foreign-member", cons, f"pattern {text(p)} has a derivative by a foreign member")
            for m in ms:
                q = x.call(pat, "deriv", K(m), e)
                if q.cls.name != "NotAllowed":
                    q = x.call(q, "deriv", K(m), e)
                    x.expect(q.cls.name == "NotAllowed", "member-once", cons, f"pattern {text(p)} accepts member {m} twice")
    ck.scenario(f"{CONS[p[0]]}/{text(p)}", t, w)


def again(ck, p, w):
    """The pattern of a node is shared by its instances: it is asked about one, another and the first again."""
    ms = sorted(set(members(p)))

    def t(x):
        root = x.sc.root(build(x.sc, {"m:c": {}, "m:d": {}}))
        pat = construct(x, p)
        T = truth(x)
        for at in ("m:c", "m:d", "m:c"):
            x.call(pat, "_eval_when", x.sc.member(root, at))
            for ct in (1, 3):
                den = denote(p, ct, T, at)
                e = enum(x, "ContentType", CT[ct])
                for r in range(len(ms) + 1):
                    for some in itertools.combinations(ms, r):
                        q = pat
                        for m in some:
                            q = x.call(q, "deriv", K(m), e)
                        ok = q.cls.name != "NotAllowed" and x.I.truth(x.call(q, "nullable", e))
                        want = frozenset(some) in den
                        x.expect(ok == want, "condition-of-this-instance", "Member._eval_when" if p[0] == "mem" else CONS[p[0]] + "._eval_when",
                                 f"pattern {text(p)}, asked about a second instance with another value of its condition, {'accepts' if ok else 'rejects'} members {' '.join(some) or '(none)'} in {CT[ct]} data")
    ck.scenario(f"again/{text(p)}", t, w)


def conditional():
    a, b, c = M("a", 1, "x-wa"), M("b"), M("c", 1, "x-wc")
    yield from (a, Opt(a), Cond(b, "x-q"), Opt(Cond(b, "x-q")), Cond(Opt(b), "x-q"), Cond(a, "x-q"), Cond(P2(b, M("d")), "x-q"))
    for f in (P2, Ch):
        for l, r in ((a, b), (b, a), (a, c), (Cond(b, "x-q"), M("d")), (M("d"), Cond(b, "x-q")), (Opt(a), b), (b, Opt(Cond(M("d"), "x-q")))):
            yield f(l, r)
    yield from (P2(Ch(a, b), M("d")), P2(M("d"), Ch(b, a)), Ch(P2(a, b), M("d")), Ch(M("d"), P2(b, a)), P2(Cond(Ch(b, M("d")), "x-q"), M("e")), Cond(Cond(b, "x-q"), "x-r"))


def run(ck):
    ck.floor = 5000
    nodes = [cont(c, *[leaf(n) for n in NAMES + "e"]) for c in "cd"]
    w = world(ck, "c06", lambda p: World(p, [statements(nodes)]))
    for p in patterns(ck):
        check(ck, p, w)
    for p in conditional():
        again(ck, p, w)
