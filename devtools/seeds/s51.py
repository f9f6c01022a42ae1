prop="C44"
needs="a state data node inside a choice of a configuration container, with an action or notification-free subtree"
breaks="state_roots omits state data that sit in choices"
edits=[("schemanode.py", """        for c in self.data_children():
            res.extend(c._state_roots())""", """        for c in self.children:
            if isinstance(c, DataNode):
                res.extend(c._state_roots())""")]
demo='''
dm = mk("container c { choice ch { case k { leaf z { config false; type string; } } leaf y { type string; } } leaf v { config false; type string; } }")
assert sorted(dm.get_schema_node("/m:c").state_roots()) == ["/m:c/v", "/m:c/z"], dm.get_schema_node("/m:c").state_roots()
'''
