"""Obligation bookkeeping, known findings, evidence and verdicts."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

from .values import *
from .model import AnalysisBroken, PKG
from .interp import (Program, Interp, Config, AbsRaise, Cut, Endless, Unsupported, Path, explore, fmt_loc)
from .world import World, Scene, freeze, snapshot, changed, reach, WorldError, ModelRejected

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Failure:
    def __init__(self, rule, construct, msg, loc, scenario, path):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.loc = loc
        self.scenario = scenario
        self.path = path

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class PathCtx:
    """Handed to a scenario on each explored path."""

    def __init__(self, check, name, I, scene):
        self.check = check
        self.name = name
        self.I = I
        self.sc = scene
        self.p = I.p
        self.results = []
        self.soft = False

    # ---- obligations ----
    def expect(self, cond, rule, construct, msg, loc=None):
        if self.check.only is not None and rule not in self.check.only:
            return cond
        self.results.append((bool(cond), rule, construct, msg if not cond else None, loc))
        return cond

    def eq(self, got, want, rule, construct, what, loc=None):
        g, w = term_of(got), term_of(want)
        return self.expect(g == w, rule, construct, f"{what}: got {show(g)}, expected {show(w)}", loc)

    def attempt(self, fn):
        """('ok', value) or ('raise', exception class name)."""
        try:
            return ("ok", self.I.force(fn()))
        except AbsRaise as e:
            self.last = e
            self.results += self.check.observed(self.I, e, self.name)
            return ("raise", getattr(e.exc.cls, "name", "?").split(".")[-1])

    def raises(self, fn, names, rule, construct, what):
        names = (names,) if isinstance(names, str) else names
        r = self.attempt(fn)
        got = r[1] if r[0] == "raise" else "no exception"
        return self.expect(r[0] == "raise" and r[1] in names, rule, construct,
                           f"{what}: {got} instead of {' or '.join(names)}",
                           self.last.loc if r[0] == "raise" else None)

    def call(self, o, m, *a, **k):
        return self.sc.call(o, m, *a, **k)

    def attr(self, o, n):
        return self.sc.attr(o, n)


UNMODELLED_OK = set()


class Check:
    def __init__(self, pid, tier="quick", seed=1, prog=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.p = prog or Program()
        self.failures = []
        self.notes = []
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = []
        self.paths = 0
        self.scenarios = 0
        self.rules = {}
        self.sites = []
        self.samples = []
        self.visited = set()
        self.assumptions = []
        self.floor = 1
        self.only = None        # rules that count, when scenarios of other properties are reused
        self.observer = None    # called with every exception a scenario catches
        self.part = (0, 1)
        self.t0 = time.time()
        self.patience, budget = (150, 540) if tier == "quick" else (900, 5000)   # seconds per scenario, per check
        self.limit = time.monotonic() + budget

    # ---- work sharing ----
    MERGE_SUM = ("obligations", "discharged", "paths")
    MERGE_LIST = ("failures", "inconclusive", "samples", "notes")

    def dump(self):
        d = {k: getattr(self, k) for k in self.MERGE_SUM + self.MERGE_LIST}
        d["rules"] = self.rules
        d["visited"] = self.visited
        d["raised"] = self.p.raised
        return d

    def merge(self, d):
        for k in self.MERGE_SUM + self.MERGE_LIST:
            setattr(self, k, getattr(self, k) + d[k])
        for k, n in d["rules"].items():
            self.rules[k] = self.rules.get(k, 0) + n
        self.visited |= d["visited"]
        self.p.raised |= d["raised"]

    # ---- direct (syntactic/dataflow) obligations ----
    def oblige(self, cond, rule, construct, msg="", loc=None):
        if self.part[0]:
            return cond
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            self.discharged += 1
            if len(self.samples) < 12 and not any(s["rule"] == rule for s in self.samples):
                self.samples.append({"rule": rule, "construct": construct, "at": loc or ""})
        else:
            self.failures.append(Failure(rule, construct, msg, loc or self.locate(construct), "static", ""))
        return cond

    def count(self, rule, n):
        """n obligations of a rule that hold."""
        if not self.part[0]:
            self.obligations += n
            self.discharged += n
            self.rules[rule] = self.rules.get(rule, 0) + n

    def locate(self, construct):
        """file:line of `Class.method` or `function` if it exists."""
        for m in self.p.modules.values():
            parts = construct.split()[0].split("(")[0].split(".")
            v = m.env.get(parts[0])
            if v is None:
                continue
            if isinstance(v, Cls) and len(parts) > 1:
                r = self.p.find(v, parts[1])
                if r:
                    f = r[1]
                    f = getattr(f, "getter", None) or getattr(f, "fn", None) or f
                    if isinstance(f, Fn):
                        return f"{f.module.path}:{f.node.lineno} {f.qual}"
            if isinstance(v, Cls) and v.module is m:
                return f"{m.path}:{v.node.lineno} {v.name}"
            if isinstance(v, Fn):
                return f"{v.module.path}:{v.node.lineno} {v.qual}"
        return PKG

    # ---- abstract-interpretation scenarios ----
    def scenario(self, name, fn, world=None, config=None, max_paths=3000, setup=None, allow=()):
        """Explore every abstract path of fn(ctx); each ctx.expect is an obligation."""
        self.scenarios += 1
        if self.scenarios % self.part[1] != self.part[0]:
            return
        if world is not None:
            if not self.prepare(world, name):
                return
        me = self

        def run(I):
            if world is not None:
                I.counter = 100000
                sc = world.scene(I)
            else:
                sc = Scene(I, None)
            ctx = PathCtx(me, name, I, sc)
            I.ctx = ctx
            try:
                v = fn(ctx)
                ctx.results += me.rejected()
            except ModelRejected as e:
                ctx.results += me.rejected()
                ctx.expect(False, "valid-model-accepted", e.where, f"building the data model of valid YANG modules fails: {e}", e.loc)
                return NONE
            return v if isinstance(v, V) else NONE
        v0 = self.p.visited
        self.p.visited = set()
        t0 = time.monotonic()
        if t0 > self.limit:
            self.inconclusive.append((name, "time limit of the check reached"))
            return
        self.p.deadline = min(t0 + self.patience, self.limit)
        self.bad = False

        def enough(pa):
            """Stop where one more path is too slow, or where paths keep failing."""
            ctx = pa.I.ctx
            self.bad = self.bad or ctx is not None and any(not r[0] and (self.only is None or r[1] in self.only) for r in ctx.results)
            t = time.monotonic()
            return t > self.p.deadline or self.bad and t > t0 + 15
        paths, complete = explore(self.p, run, config, max_paths, setup, enough)
        self.p.deadline = None
        self.visited |= self.p.visited
        self.p.visited = v0
        self.paths += len(paths)
        if not complete:
            self.inconclusive.append((name, f"path or time bound reached after {len(paths)} paths"))
        for pa in paths:
            ends = not isinstance(pa.value, Endless)
            if pa.kind in ("unsupported", "cut") and ends:
                self.inconclusive.append((name, f"{pa.kind}: {pa.value}"))
            ctx = pa.I.ctx
            unm = self.unmodelled(pa, allow)
            res = list(ctx.results) if ctx is not None else []
            if not ends:
                res.append((False, "terminates", pa.value.fn, str(pa.value), fmt_loc(pa.loc)))
            if pa.kind == "raise" and self.observer is not None and ctx is not None:
                res += self.observed(pa.I, AbsRaise(pa.exc, pa.loc), name)
            elif pa.kind == "raise":
                res.append((False, "no-unexpected-exception", name.split("/")[0],
                            f"{pa.excname()} raised at {fmt_loc(pa.loc)}", fmt_loc(pa.loc)))
            for ok, rule, cons, msg, loc in res:
                if not ok and unm:
                    self.inconclusive.append((name, f"depends on unmodelled {unm}"))
                    continue
                self.obligations += 1
                self.rules[rule] = self.rules.get(rule, 0) + 1
                if ok:
                    self.discharged += 1
                    if len(self.samples) < 12 and not any(s["rule"] == rule for s in self.samples):
                        self.samples.append({"rule": rule, "construct": cons, "scenario": name,
                                             "path": self.pathdesc(pa)})
                else:
                    if isinstance(loc, tuple):
                        loc = fmt_loc(loc)
                    self.failures.append(Failure(rule, cons, msg, loc or self.locate(cons), name, self.pathdesc(pa)))

    def observed(self, I, e, name):
        """What the observer, if any, has to say about an exception."""
        if self.observer is None:
            return []
        try:
            return self.observer(I, e, name)
        except (AbsRaise, Unsupported) as u:
            self.inconclusive.append((name, f"observer: {u}"))
            return []

    def rejected(self):
        """Verdicts on the exceptions that ended the construction of data models."""
        res = []
        while World.rejections:     # None unless an observer asked for them
            I, e = World.rejections.pop()
            res += self.observed(I, e, "data model")
        return res

    def prepare(self, world, name="model"):
        """Build the abstract model; a valid model that is rejected is a violation."""
        try:
            world.prepare()
            return True
        except ModelRejected as e:
            self.obligations += 1
            self.failures.append(Failure("valid-model-accepted", e.where, f"building the data model of valid YANG modules fails: {e}",
                                         e.loc, name, ""))
        except Endless as e:
            self.obligations += 1
            self.failures.append(Failure("terminates", e.fn, f"building the data model of valid YANG modules: {e}", fmt_loc(e.loc), name, ""))
        except (Unsupported, Cut) as e:
            self.inconclusive.append((name, "world: " + str(e)))
        return False

    def pathdesc(self, pa):
        ds = []
        for c, n, k in pa.I.trace[:12]:
            ds.append(f"{show(k)}={'ft'[1 - c] if n == 2 else c}")
        return "; ".join(ds)[:600]

    def unmodelled(self, pa, allow):
        for e in pa.I.events:
            if e.kind == "extcall" and e.data[0] not in MODELLED and e.data[0] not in allow:
                return e.data[0]
        return None

    # ---- verdict ----
    def finish(self):
        known = load_known()
        viol, kf = {}, {}
        for f in self.failures:
            d = kf if (self.pid, f.key) in known else viol
            d.setdefault(f.key, f)
        for k, f in kf.items():
            print(f"KNOWN-FINDING: property={self.pid} {f.construct} [{f.rule}]: {known[(self.pid, k)]}")
        if os.environ.get("YVERIF_UNRAISED"):
            self.unraised()
        wall = time.time() - self.t0
        cov = {
            "explanation": (f"Static analysis of {self.p.source.repo}/{PKG}: {self.obligations} proof obligations "
                            f"over {self.scenarios} abstract scenarios ({self.paths} abstract paths) and "
                            f"{len(self.sites)} syntax/call-graph sites; {len(self.inconclusive)} inconclusive."),
            "obligations_checked": self.obligations,
            "obligations_discharged": self.discharged,
            "abstract_paths": self.paths,
            "scenarios": self.scenarios,
            "sites": len(self.sites),
            "functions_analysed": sorted({f"{m.split('.', 1)[-1]}:{q}" for m, q in self.visited})[:400],
            "functions_count": len(self.visited),
            "rules": self.rules,
            "inconclusive": [f"{a}: {b}" for a, b in self.inconclusive][:20],
            "inconclusive_count": len(self.inconclusive),
            "samples": self.samples[:12],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(viol)}
        if os.environ.get("YVERIF_NOEV"):
            return self.report(viol, None)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        return self.report(viol, os.path.join(HERE, "evidence", "replay"))

    def unraised(self):
        """Development aid: raise statements no scenario reached."""
        import ast
        got = {(a, c) for a, b, c in self.p.raised}
        for m, q, fn, cls in self.p.source.functions():
            for n in ast.walk(fn):
                if isinstance(n, ast.Raise) and n.exc is not None and (self.p.modules[m].path, n.lineno) not in got:
                    print("  not raised:", m, n.lineno, q, ast.unparse(n)[:80])

    def report(self, viol, rd):
        print(f"{self.pid}: {self.discharged}/{self.obligations} obligations, {self.paths} paths, "
              f"{len(self.visited)} functions, {len(self.sites)} sites, {len(self.inconclusive)} inconclusive, "
              f"{time.time() - self.t0:.1f}s")
        if viol:
            rp = "-"
            if rd:
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, self.pid + ".txt")
                with open(rp, "w") as fh:
                    for f in viol.values():
                        fh.write(f"property {self.pid}\nrule {f.rule}\nconstruct {f.construct}\nat {f.loc}\n"
                                 f"scenario {f.scenario}\npath {f.path}\nproblem {f.msg}\n\n")
            for f in list(viol.values())[:30]:
                print(f"  {f.loc}: [{f.rule}] {f.construct}: {f.msg} (scenario {f.scenario})")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.discharged < self.floor:
            print(f"ANALYSIS-BROKEN: only {self.discharged} obligations discharged, floor is {self.floor}")
            for a, b in self.inconclusive[:10]:
                print("  inconclusive", a, b)
            return 2
        return 0


MODELLED = {"datetime.datetime.now", "re.compile", "elementpath.translate_pattern", "re.match", "re.fullmatch", "json.dumps", "builtins.open", "urllib.parse.unquote",
            "xml.sax.saxutils.quoteattr", "hashlib.sha1"}


def load_known():
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                head, _, what = line[7:].strip().partition(" :: ")
                parts = dict(x.split("=", 1) for x in head.split(" ", 1))
                res[(parts["property"], parts["key"])] = what
    return res
