prop="C14"
needs="concat or another variadic call with exactly two arguments"
breaks="concat with two arguments is rejected"
edits=[("xpathparser.py", """        if len(res) < 2:
            raise InvalidXPath(self)
        return FuncConcat(res)""", """        if len(res) <= 2:
            raise InvalidXPath(self)
        return FuncConcat(res)""")]
demo='''
dm = mk("container c { leaf a { type string; must \\"concat(., 'z') = 'xz'\\"; } }")
assert val(dm, {"m:c": {"a": "x"}}) == "ok"
'''
