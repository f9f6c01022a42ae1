prop="C41"
needs="merging an empty object into a non-empty container or list entry member"
breaks="merging an empty container replaces the existing container instead of keeping its members"
edits=[("instance.py", """                inst = inst[k].merge(value[k]).up()
""", """                inst = (inst[k].merge(value[k]) if value[k]
                        else inst[k].update(value[k])).up()
""")]
demo='''
dm = mk("container c { container d { leaf x { type string; } } leaf y { type string; } }")
i = dm.from_raw({"m:c": {"d": {"x": "1"}, "y": "2"}})
r = i["m:c"].merge({"d": {}}, raw=True).raw_value()
assert r == {"d": {"x": "1"}, "y": "2"}, r
'''
