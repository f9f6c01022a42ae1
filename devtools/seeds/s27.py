prop="C20"
needs="a refine or deviation that sets max-elements unbounded where the list has a limit"
breaks="the old limit stays in force"
edits=[("schemanode.py", """        if arg == "unbounded":
            self.max_elements = None
""", """        if arg == "unbounded":
            pass
""")]
demo='''
dm = mk("grouping g { leaf-list l { type string; max-elements 1; } } container c { uses g { refine l { max-elements unbounded; } } } container d { uses g; }")
assert val(dm, {"m:c": {"l": ["1", "2"]}}) == "ok"
assert val(dm, {"m:d": {"l": ["1", "2"]}}) != "ok"
'''
