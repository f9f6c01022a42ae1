prop="C18"
needs="a refine with a false if-feature whose target is nested in a container of the grouping"
breaks="the refined node survives although its feature is not supported"
edits=[("schemanode.py", """            target.parent.children.remove(target)
""", """            if target in self.children:
                self.children.remove(target)
""")]
demo='''
dm = mk("feature f; grouping g { container i { leaf x { type string; } leaf y { type string; } } leaf z { type string; } } container c { uses g { refine i/x { if-feature f; } refine z { if-feature f; } } }")
assert val(dm, {"m:c": {"i": {"y": "1"}}}) == "ok"
assert val(dm, {"m:c": {"z": "1"}}) != "ok"
assert val(dm, {"m:c": {"i": {"x": "1"}}}) != "ok"
'''
