prop="C05"
needs="two validations with the same data model where the when condition of a choice, case or uses changes its value in between"
breaks="the when condition of a conditional group of nodes is evaluated at the first validation only"
edits=[("schpattern.py", """        super()._eval_when(cnode)
        self.pattern._eval_when(cnode)
""", """        if self._val_when is None:
            super()._eval_when(cnode)
        self.pattern._eval_when(cnode)
""")]
demo='''
dm = mk("container c { leaf a { type string; } choice ch { when \\"a = 'x'\\"; leaf b { type string; } leaf d { type string; } } }")
assert val(dm, {"m:c": {"a": "y"}}) == "ok"
assert val(dm, {"m:c": {"a": "x", "b": "1"}}) == "ok"
assert val(dm, {"m:c": {"a": "y", "b": "1"}}) != "ok"
'''
