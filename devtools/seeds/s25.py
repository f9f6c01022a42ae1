prop="C31"
needs="a definition inside a container or grouping that is used with the module's own prefix"
breaks="the definition is not found"
edits=[("schemadata.py", """        if did == self.modules[sctx.text_mid].main_module:
            dstmt =""", """        if loc == stmt.argument:
            dstmt =""")]
demo='''
dm = mk("container c { typedef t { type int8; } grouping g { leaf x { type m:t; } } leaf a { type m:t; } container d { uses m:g; } }")
assert val(dm, {"m:c": {"a": 5, "d": {"x": 5}}}) == "ok"
assert val(dm, {"m:c": {"a": "5"}}) != "ok"
'''
