"""python3 -m yverif.run PROPERTY: decide one property on /repo's current source."""
import importlib
import os
import pickle
import sys
import traceback

import warnings

sys.setrecursionlimit(20000)
warnings.simplefilter("ignore", DeprecationWarning)


def decide(pid):
    from .check import Check
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"yverif.rules.{pid.lower()}")
    n = 1 if os.environ.get("YVERIF_DEBUG") else int(os.environ.get("YVERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ck = Check(pid, tier, seed)
    kids = []
    for k in range(1, n):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            ck.part = (k, n)
            code = 0
            try:
                mod.run(ck)
                data = pickle.dumps(ck.dump())
            except BaseException:
                data = pickle.dumps(traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            os._exit(0)
        os.close(w)
        kids.append((pid_, r))
    ck.part = (0, n)
    err = None
    try:
        mod.run(ck)
    except Exception as e:
        err = e
    for pid_, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid_, 0)
        d = pickle.loads(data) if data else "worker ended without result"
        if isinstance(d, str):
            err = err or RuntimeError(d)
        else:
            ck.merge(d)
    if err is not None:
        raise err
    return ck.finish()


def main(argv):
    from .model import AnalysisBroken
    try:
        return decide(argv[0])
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN: cannot parse: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
