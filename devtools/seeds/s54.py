prop="C46"
needs="an edit of an entry, then moving to a neighbouring entry before going up"
breaks="after an edited entry is left by next() or previous(), the array is dated before the edit"
edits=[("instance.py", """        return ArrayEntry(self.index + 1, nbef, naft, newval, self.parinst,
                          self.schema_node, self.timestamp)""", """        return ArrayEntry(self.index + 1, nbef, naft, newval, self.parinst,
                          self.schema_node, self.parinst.timestamp)""")]
demo='''
import time
dm = mk("container c { list l { key k; leaf k { type string; } leaf v { type string; } } }")
i = dm.from_raw({"m:c": {"l": [{"k": "1", "v": "a"}, {"k": "2"}]}})
old = i.timestamp
time.sleep(0.01)
e = i["m:c"]["l"][0]["v"].update("b").up()
assert e.timestamp > old
n = e.next()
assert n.up().timestamp > old and n.top().timestamp > old
'''