"""Dev aid: run checks against surviving mutants.
mutcheck.py PROP[,PROP] FILE-RE FUNC-RE [max]  -> prints missed mutants, counts"""
import sys, json, re, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
props, fre, qre = sys.argv[1].split(","), sys.argv[2], sys.argv[3]
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 200
S = json.load(open("/tmp/mut/surv.json"))
S = [s for s in S if re.search(fre, s["file"]) and re.search(qre, s["func"] or "")]
import random
random.Random(1).shuffle(S)
S = S[:mx]
BASE = "a7821de"
base = {}
for f in {s["file"] for s in S}:
    base[f] = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True).stdout
def one(s):
    d = tempfile.mkdtemp(prefix="mc")
    try:
        shutil.copytree("/repo/yangson", d + "/yangson", ignore=shutil.ignore_patterns("__pycache__"))
        b = base[s["file"]]
        m = b[:s["s"]] + s["new"].encode() + b[s["e"]:]
        open(d + "/base", "wb").write(b); open(d + "/mut", "wb").write(m)
        r = subprocess.run(["git", "merge-file", d + "/" + s["file"], d + "/base", d + "/mut"], capture_output=True)
        if r.returncode != 0: return s, "conflict"
        res = []
        for p in props:
            env = dict(os.environ, YVERIF_REPO=d, PYTHONPATH="/verif", YVERIF_NOEV="1", YVERIF_JOBS="1")
            try:
                r = subprocess.run([sys.executable, "-m", "yverif.run", p], cwd="/verif", env=env, capture_output=True, text=True, timeout=600)
                res.append(r.returncode)
            except subprocess.TimeoutExpired:
                res.append("timeout")
            if r.returncode == 1: break
        return s, res
    finally:
        shutil.rmtree(d, ignore_errors=True)
caught = 0; other = 0
with ThreadPoolExecutor(8) as ex:
    out = list(ex.map(one, S))
out.sort(key=lambda x: (x[0]["file"], x[0]["line"]))
for s, r in out:
    if r == "conflict": continue
    if 1 in r: caught += 1; continue
    print(f"{'MISS' if all(x == 0 for x in r) else r} {s['file'][8:]}:{s['line']} {s['func']} [{s['desc']}] {s['old'][:70]!r} -> {s['new'][:50]!r}")
print("caught", caught, "of", len([1 for s, r in out if r != 'conflict']))
