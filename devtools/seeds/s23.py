prop="C18"
needs="a derived bits type restricting its base with a bit under a false if-feature"
breaks="the guarded bit of a restricted type stays valid"
edits=[("datatype.py", """        new = set([b.argument for b in bst if
                   sctx.schema_data.if_features(b, sctx.text_mid)])
        for bit in""", """        new = set([b.argument for b in bst])
        for bit in""")]
demo='''
dm = mk("feature f; typedef t { type bits { bit x; bit y; } } leaf l { type t { bit x; bit y { if-feature f; } } }")
assert val(dm, {"m:l": "x"}) == "ok"
assert val(dm, {"m:l": "x y"}) != "ok"
'''
