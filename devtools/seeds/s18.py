prop="C15"
needs="a node of the searched name nested inside another node of the same name"
breaks="the descendant axis does not look below a node that matches the name test"
edits=[("instance.py", """                res.append(c)
            res += c._descendants(qname)
""", """                res.append(c)
            if c.qual_name != qname:
                res += c._descendants(qname)
""")]
demo='''
dm = mk("container c { leaf a { type string; must \\"count(../descendant::x) = 2\\"; } container x { container x { presence p; } } }")
r = val(dm, {"m:c": {"a": "1", "x": {"x": {}}}})
assert r == "ok", r
'''
