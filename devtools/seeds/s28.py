prop="C20"
needs="a refine whose grouping is in another module that binds the refine's prefix to another module"
breaks="names in the refine are resolved in the module of the grouping"
edits=[("schemanode.py", """            sn._refine_stmt(refst, sctx)
""", """            sn._refine_stmt(refst, gid)
""")]
demo='''
n = "module n { yang-version 1.1; namespace 'urn:n'; prefix n; import o { prefix x; } identity base; grouping g { leaf i { type identityref { base base; } } } }"
o = "module o { yang-version 1.1; namespace 'urn:o'; prefix o; import n { prefix n; } identity id { base n:base; } }"
p = "module p { yang-version 1.1; namespace 'urn:p'; prefix p; import n { prefix n; } identity id { base n:base; } }"
p = p.replace("import n", "import n")
o = "module o { yang-version 1.1; namespace 'urn:o'; prefix o; identity id; }"
dm = mk("container c { uses n:g { refine i { default x:id; } } } ", mods={"n": n, "o": o, "p": p}, hdr="import n { prefix n; } import p { prefix x; }")
inst = dm.from_raw({"m:c": {}}).add_defaults()
assert inst["m:c"]["i"].value == ("id", "p"), inst["m:c"]["i"].value
'''
