prop="C47"
needs="a model with a range-restricted integer leaf, pickled (as yangson --pickle does)"
breaks="a data model with a range-restricted type cannot be pickled: its intervals hold a local function"
edits=[("datatype.py", """                    [self._range], parser=self.parse_value,
                    error_message="not in range")
            self.range.restrict_with(""", """                    [self._range], parser=lambda t: self.parse_value(t.strip()),
                    error_message="not in range")
            self.range.restrict_with(""")]
demo='''
import pickle
dm = mk("leaf n { type int8 { range '1..5'; } }")
d2 = pickle.loads(pickle.dumps(dm))
d2.from_raw({"m:n": 3}).validate()
'''
