prop="C01"
needs="an entry obtained by navigation, insert_before on it, then using the original entry again (next/up)"
breaks="insert_before adds the receiver's value to the deque it shares with the receiver, so the original cursor gains a duplicate entry"
edits=[("instance.py", """        naft = self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index, self.before, naft,
                          self._cook""", """        naft = self.after
        naft.appendleft(self.value)
        return ArrayEntry(self.index, self.before, naft,
                          self._cook""")]
demo='''
dm = mk("leaf-list a { type string; ordered-by user; }")
r = dm.from_raw({"m:a": ["x", "y", "z"]})
e = r["m:a"][1]
e.insert_before("new")
assert list(e.up().value) == ["x", "y", "z"], e.up().value
'''
