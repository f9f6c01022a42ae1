prop="C21"
needs="a derivation chain of at least three base statements and a question about all derived identities (such as the schema digest)"
breaks="derived_from stops after the second level"
edits=[("schemadata.py", """            res |= self.derived_from(id)
        return res
""", """            res |= self.identity_adjs[id].derivs
        return res
""")]
demo='''
import json
dm = mk("identity a; identity b { base a; } identity c { base b; } identity d { base c; } leaf l { type identityref { base a; } }")
ids = json.loads(dm.schema_digest())["children"]["m:l"]["type"]["identities"]
assert sorted(i[0] for i in ids) == ["b", "c", "d"], ids
'''
