prop="C06"
needs="two entries of a list with a mandatory member under a condition that holds in the first entry and not in the second"
breaks="a condition once found true is not evaluated again for another instance of the node"
edits=[("schpattern.py", """    def _eval_when(self, cnode: "InstanceNode") -> None:
        if self.when:
            dummy = cnode.put_member(self.name, (None,))
            super()._eval_when(dummy)
""", """    def _eval_when(self, cnode: "InstanceNode") -> None:
        if self.when and not self._val_when:
            dummy = cnode.put_member(self.name, (None,))
            super()._eval_when(dummy)
""")]
demo='''
dm = mk("""list l { key k; leaf k { type string; } leaf s { type string; } leaf x { when "../s = 'on'"; mandatory true; type string; } }""")
r = val(dm, {"m:l": [{"k": "a", "s": "on", "x": "1"}, {"k": "b", "s": "off"}]})
assert r == "ok", r
r = val(dm, {"m:l": [{"k": "b", "s": "off", "x": "2"}]})
assert r != "ok", r
'''
