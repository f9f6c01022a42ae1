prop="C49"
needs="a key missing in a list entry other than the first"
breaks="the error about a missing key names the first entry of the list whatever entry lacks the key"
edits=[("schemanode.py", """                raise SchemaError(inst._entry(i),
""", """                raise SchemaError(inst._entry(len(ukeys) and 0),
""")]
demo='''
dm = mk('list l { key "k"; leaf k { type string; } leaf a { type string; } }')
try:
    dm.from_raw({"m:l": [{"k": "1"}, {"a": "x"}]}).validate()
except Exception as e:
    assert e.instance.path == ("m:l", 1), e.instance.path
    assert e.instance["a"].value == "x"
else:
    raise AssertionError("accepted")
'''
