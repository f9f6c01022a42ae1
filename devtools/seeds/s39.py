prop="C26"
needs="a value of a wrong type in a leaf-list entry other than the first, itself within a second list entry"
breaks="the path in the RawTypeError names another entry"
edits=[("schemanode.py", """            res.append(self.entry_from_raw(rval[i], jptr + element))
            idx = idx + 1
""", """            res.append(self.entry_from_raw(rval[i], jptr + element))
            idx = len(res) // 2 + 1 if idx else 1
""")]
demo='''
from yangson.exceptions import RawTypeError
dm = mk("list l { key k; leaf k { type string; } leaf-list v { type uint8; } }")
try:
    dm.from_raw({"m:l": [{"k": "a"}, {"k": "b", "v": [1, 2, 3, "x"]}]})
    assert False
except RawTypeError as e:
    assert e.path.endswith("v/3"), e.path
'''
