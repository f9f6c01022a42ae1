prop="C25"
needs="an enumeration typedef restricted to at least two of its enums, and two runs whose string hashes differ"
breaks="the enums of a restricted enumeration are listed in the iteration order of a set"
edits=[("datatype.py", """        for en in set(self.enum) - new:
            del self.enum[en]
""", """        self.enum = {en: self.enum[en] for en in set(self.enum) & new}
""")]
demo='''
import os, subprocess, sys
if os.environ.get("INNER"):
    names = ["alpha", "beta", "gamma", "delta", "eps"]
    dm = mk("typedef e { type enumeration { %s } } leaf l { type e { %s } }" % (" ".join(f"enum {n};" for n in names + ["zeta"]), " ".join(f"enum {n};" for n in names)))
    print(json.loads(dm.schema_digest())["children"]["m:l"]["type"]["enums"])
else:
    outs = {subprocess.run([sys.executable, *sys.argv], env={**os.environ, "INNER": "1", "PYTHONHASHSEED": str(i)}, capture_output=True, text=True, check=True).stdout for i in range(1, 9)}
    assert len(outs) == 1, outs
'''
