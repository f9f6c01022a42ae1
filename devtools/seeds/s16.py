prop="C14"
needs="substring-after with a separator of more than one character"
breaks="substring-after keeps the rest of the separator"
edits=[("xpathast.py", """lres[ind + len(rres):] if ind >= 0""", """lres[ind + 1:] if ind >= 0""")]
demo='''
dm = mk("container c { leaf a { type string; must \\"substring-after(., '::') = 'z'\\"; } }")
assert val(dm, {"m:c": {"a": "x::z"}}) == "ok"
'''
