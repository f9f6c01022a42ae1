prop="C25"
needs="an XPath union whose right operand selects several nodes that the left one does not, evaluated as a string, and two runs whose string hashes differ"
breaks="the nodes that the right operand adds to a union are put in the iteration order of a set"
edits=[("nodeset.py", """        return self.__class__(self + [n for n in ns if n.path not in paths])
""", """        new = {n.path: n for n in ns}
        return self.__class__(self + [new[p] for p in set(new) - paths])
""")]
demo='''
import os, subprocess, sys
if os.environ.get("INNER"):
    dm = mk("leaf-list l { type string; } leaf a { type string; } leaf r { type string; must 'string(../a | ../l) = \\"one\\"'; }")
    print(val(dm, {"m:l": ["one", "two", "three", "four", "five"], "m:r": "x"}))
else:
    outs = {subprocess.run([sys.executable, *sys.argv], env={**os.environ, "INNER": "1", "PYTHONHASHSEED": str(i)}, capture_output=True, text=True, check=True).stdout for i in range(1, 9)}
    assert len(outs) == 1, outs
'''
