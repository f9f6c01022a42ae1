prop="C02"
needs="add_defaults(tag=True) on a tree with an absent non-presence container, followed by another default-adding call without tags"
breaks="the default instance of a container is cached in the schema node and later marked in place by add_defaults(tag=True)"
edits=[("schemanode.py", """        inst.value = ObjectValue()
        return inst if lazy else self._add_defaults(inst, ctype)
""", """        if self._empty is None:
            self._empty = ObjectValue()
        inst.value = self._empty
        return inst if lazy else self._add_defaults(inst, ctype)
"""), ("schemanode.py", """        super().__init__()
        self.presence: bool = False
""", """        super().__init__()
        self.presence: bool = False
        self._empty: Optional[ObjectValue] = None
""")]
demo='''
dm = mk("container c { container d { leaf x { type string; } } leaf y { type string; } } leaf z {type string;}")
r = dm.from_raw({"m:z": "1", "m:c": {"y": "q"}})
r.add_defaults(tag=True)
v = r.add_defaults().raw_value()
assert "@" not in v["m:c"]["d"], v
'''
