prop="C13"
needs="a union of node-sets whose nodes have equal values at different places"
breaks="the union operator merges different nodes that have the same value"
edits=[("nodeset.py", """        paths = set([n.path for n in self])
        return self.__class__(self + [n for n in ns if n.path not in paths])""", """        strs = set([str(n.value) + n.name for n in self])
        return self.__class__(self + [n for n in ns if str(n.value) + n.name not in strs])""")]
demo='''
dm = mk("container c { leaf a { type string; must \\"count(../p/x | ../q/x) = 2\\"; } container p { leaf x { type string; } } container q { leaf x { type string; } } }")
assert val(dm, {"m:c": {"a": "y", "p": {"x": "1"}, "q": {"x": "1"}}}) == "ok"
'''
