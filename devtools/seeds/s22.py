prop="C17"
needs="a choice whose active case is populated only through a nested choice or a uses with a condition"
breaks="the active case is not recognised and the defaults of the default case are added as well"
edits=[("schemanode.py", """            for cc in c.data_children():
                if cc.iname() in value:
                    return c""", """            for cc in c.children:
                if isinstance(cc, DataNode) and cc.iname() in value:
                    return c""")]
demo='''
dm = mk("container c { choice ch { default d; case k { choice i { leaf a { type string; } leaf b { type string; } } } leaf d { type string; default x; } } }")
r = dm.from_raw({"m:c": {"a": "1"}}).add_defaults().raw_value()
assert r == {"m:c": {"a": "1"}}, r
'''
