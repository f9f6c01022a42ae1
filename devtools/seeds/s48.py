prop="C34"
needs="deref() of an empty node set"
breaks="deref of an empty node set dies with UnboundLocalError"
edits=[("xpathast.py", """            raise XPathTypeError(str(ns))
        return NodeSet(ns[0]._deref() if ns else [])
""", """            raise XPathTypeError(f"{ns}")
        for node in ns[:1]:
            target = node._deref()
        return NodeSet(target)
""")]
demo='''
dm = mk("leaf a { type string; } leaf r { type leafref { path '../a'; } } leaf b { type string; must 'not(deref(../r) = .)'; }")
assert val(dm, {"m:b": "x"}) == "ok"
assert val(dm, {"m:b": "x", "m:a": "y", "m:r": "y"}) == "ok"
assert val(dm, {"m:b": "y", "m:a": "y", "m:r": "y"}) != "ok"
'''
