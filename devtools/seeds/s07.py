prop="C07"
needs="a list with a unique constraint over two leaves without defaults, and two entries that agree in one of them and lack the other"
breaks="entries lacking one leaf of a unique constraint are compared by the remaining leaves"
edits=[("schemanode.py", """                uvals.append(uval)
""", """                if uval:
                    uvals.append(uval)
""")]
demo='''
dm = mk('list l { key "k"; unique "a b"; leaf k { type string; } leaf a { type string; } leaf b { type string; } }')
assert val(dm, {"m:l": [{"k": "1", "a": "x"}, {"k": "2", "a": "x"}]}) == "ok"
assert val(dm, {"m:l": [{"k": "1", "a": "x", "b": "y"}, {"k": "2", "a": "x", "b": "y"}]}).startswith("SemanticError")
'''
