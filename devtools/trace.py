"""Dev aid: show undecided atoms of one scenario: trace.py PROP SCENARIO-SUBSTR"""
import sys, importlib
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from yverif.check import Check
import yverif.check as C
from yverif.interp import show
from collections import Counter
pid, sub = sys.argv[1:3]
ck = Check(pid)
orig = Check.scenario
def sc(self, name, fn, world=None, config=None, max_paths=3000, setup=None, allow=()):
    if sub not in name: return
    print("==", name)
    oe = C.explore
    def ex(*a, **k):
        paths, comp = oe(*a, **k)
        c = Counter(); kinds = Counter()
        for p in paths:
            kinds[(p.kind, p.value if p.kind in ("cut","unsupported") else p.excname())] += 1
            for ch, n, key in p.I.trace: c[show(key)[:200]] += 1
        print(len(paths), comp, dict(kinds))
        for k_, n in c.most_common(12): print("  ", n, k_)
        return paths, comp
    C.explore = ex
    try: orig(self, name, fn, world, config, min(max_paths, 60), setup, allow)
    finally: C.explore = oe
Check.scenario = sc
importlib.import_module(f"yverif.rules.{pid.lower()}").run(ck)
for f in ck.failures[:10]: print(f.rule, f.construct, f.msg, f.loc)
