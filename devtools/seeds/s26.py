prop="C19"
needs="a key statement with keys separated by a line break or more than one space"
breaks="the keys of the list are not recognised"
edits=[("schemanode.py", """                     for k in stmt.argument.split()]

    def _parse_unique""", """                     for k in stmt.argument.split(" ")]

    def _parse_unique""")]
demo='''
for sep in (" ", "  ", "\\\\n         "):
    dm = mk('list l { key "a%sb"; leaf a { type string; } leaf b { type string; } }' % sep.replace("\\\\n", chr(10)))
    assert val(dm, {"m:l": [{"a": "1", "b": "2"}, {"a": "1", "b": "3"}]}) == "ok"
    assert val(dm, {"m:l": [{"a": "1", "b": "2"}, {"a": "1", "b": "2"}]}) != "ok"
    assert val(dm, {"m:l": [{"a": "1"}]}) != "ok"
'''
