prop="C03"
needs="an edit below a list entry followed by moving to a sibling entry or back up, checked through timestamps of the ancestors"
breaks="previous() loses the entry the cursor stood on when the receiver is the second entry (entries after it keep their order)"
edits=[("instance.py", """        naft = self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,
""", """        naft = self.after.copy()
        if nbef or not naft:
            naft.appendleft(self.value)
        else:
            naft.append(self.value)
        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,
""")]
demo='''
dm = mk("leaf-list a { type string; ordered-by user; }")
r = dm.from_raw({"m:a": ["x", "y", "z"]})
assert list(r["m:a"][1].previous().update("w").up().value) == ["w", "y", "z"]
'''
