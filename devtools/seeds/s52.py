prop="C45"
needs="two nodes of the same name from two modules in one container, the module added later coming first by name"
breaks="nodes of equal names are not ordered by module in the ASCII tree"
edits=[("schemanode.py", """        cs.sort(key=lambda x: x.qual_name)
""", """        cs.sort(key=lambda x: x.name)
""")]
demo='''
a = 'module a { namespace "urn:a"; prefix a; import m { prefix m; } augment "/m:c" { leaf z { type string; } } }'
dm = mk("container c { leaf z { type string; } leaf b { type string; } }", mods={"a": a})
t = dm.ascii_tree(no_types=True)
want = """+--rw m:c
   +--rw b?
   +--rw a:z?
   +--rw z?
"""
assert t == want, t
'''
