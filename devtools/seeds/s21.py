prop="C17"
needs="a leaf-list without own default whose type has a default of zero, false or the empty string"
breaks="the default of the type is not added to the leaf-list"
edits=[("schemanode.py", """        return (None if self.type.default is None
                else ArrayValue([self.type.default]))""", """        tdf = self.type.default
        return ArrayValue([tdf]) if tdf else None""")]
demo='''
dm = mk("typedef t { type uint8; default 0; } container c { leaf-list l { type t; } }")
r = dm.from_raw({}).add_defaults().raw_value()
assert r == {"m:c": {"l": [0]}}, r
'''
