prop="C23"
needs="a RESTCONF resource identifier whose list key contains a percent-encoded comma"
breaks="resource identifiers are percent-decoded before the key values are separated, so an encoded comma splits a key"
edits=[("instance.py", """        ks = keys.split(",")
""", """        keys = unquote(keys)
        ks = keys.split(",")
"""), ("instance.py", """            val = unquote(ks[j])
""", """            val = ks[j]
""")]
demo='''
dm = mk("list l { key 'k j'; leaf k { type string; } leaf j { type string; } leaf v { type string; } }")
i = dm.from_raw({"m:l": [{"k": "a,b", "j": "c", "v": "x"}]})
assert i.goto(dm.parse_resource_id("/m:l=a%2Cb,c/v")).value == "x"
'''
