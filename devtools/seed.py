"""Dev aid: turn devtools/seeds/*.py into confirmed /verif/seeded/<id>/ directories.
seed.py [ID ...]   -> for each: apply to /repo, build, run stable tests, run the demo with and without, run the property's check
Each spec file defines: prop, needs, breaks, edits=[(file, old, new)], demo (python source using lab.py)."""
import sys, os, json, subprocess, shutil, glob, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
stable = BASE.get("stable") or BASE.get("passing") or BASE.get("tests") or BASE
if isinstance(stable, dict):
    stable = list(stable)
LAB = open(os.path.join(HERE, "devtools", "lab.py")).read()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- . ")


ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "devtools/seeds/*.py")))
fast = os.environ.get("FAST")
for sid in ids:
    ns = {}
    exec(open(os.path.join(HERE, "devtools/seeds", sid + ".py")).read(), ns)
    out = os.path.join(HERE, "seeded", sid)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    os.makedirs(out, exist_ok=True)
    try:
        bad = None
        for f, old, new in ns["edits"]:
            p = "/repo/yangson/" + f
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} occurrences"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(sid, "EDIT FAILED", bad); continue
        open(out + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/lab.py", "w").write(LAB)
        open(out + "/demo.py", "w").write("from lab import *\n" + ns["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$(dirname "$0")"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 120 "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        # added lines of own commits must not be changed
        msg = []
        sh("bash /opt/vp/build.sh")
        d1 = sh(f"bash {out}/demo.sh", cwd="/repo")
        if not fast:
            sh("bash /opt/vp/test.sh /tmp/seedout.json")
            r = json.load(open("/tmp/seedout.json"))
            passed = set(r.get("passed", []))
            miss = [t for t in stable if t not in passed]
            msg.append(f"tests {'ok' if not miss else 'FAIL ' + str(len(miss)) + ' ' + str(miss[:2])}")
        c = sh(f"timeout 600 python3 -m yverif.run {ns['prop']}", cwd=HERE, env=dict(os.environ, YVERIF_NOEV="1"))
        clean()
        d0 = sh(f"bash {out}/demo.sh", cwd="/repo")
        msg.append(f"demo clean={d0.returncode} bug={d1.returncode} ({(d1.stderr or d1.stdout).strip().splitlines()[-1:]})")
        if d0.returncode: msg.append(d0.stderr[-300:])
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        msg.append(f"check rc={c.returncode} {v[:1]}" + ("" if c.returncode == 1 else "   <<<<<< MISSED " + c.stdout[-200:]))
        print(sid, ns["prop"], "; ".join(msg), flush=True)
    finally:
        clean()
