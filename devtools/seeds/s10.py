prop="C10"
needs="a union whose earlier member is a 64-bit or decimal type and a later one a 32-bit integer, with a value only the later one accepts"
breaks="the value is encoded with the JSON kind of a member type it does not belong to"
edits=[("datatype.py", """    def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
        for t in self.types:
            if val in t:
                return t.to_raw(val)
        return None
""", """    def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
        for t in self.types:
            res = t.to_raw(val)
            if res is not None:
                return res
        return None
""")]
demo='''
dm = mk("leaf a { type union { type uint64; type int32; } }")
r = dm.from_raw({"m:a": -5})
assert r.raw_value() == {"m:a": -5}, r.raw_value()
'''
