prop="C04"
needs="state data with a leafref that requires an instance, validated with content type all"
breaks="referential integrity of leafrefs in state data is not enforced"
edits=[("schemanode.py", """        if (isinstance(self.type, LinkType) and        # referential integrity
""", """        if (self.config and isinstance(self.type, LinkType) and  # integrity
""")]
demo='''
dm = mk('leaf a { type string; } container s { config false; leaf r { type leafref { path "/m:a"; require-instance true; } } }')
assert val(dm, {"m:a": "x", "m:s": {"r": "x"}}) == "ok"
assert val(dm, {"m:a": "x", "m:s": {"r": "y"}}).startswith("SemanticError")
'''
