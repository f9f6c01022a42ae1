prop="C11"
needs="a leaf of type empty (or a union with one) whose raw value is an object, or a number other than zero"
breaks="decoding such a value escapes with a KeyError or TypeError instead of a documented exception"
edits=[("datatype.py", """        return (None,) if raw == [None] else None
""", """        return (None,) if raw and raw[0] is None and len(raw) == 1 else None
""")]
demo='''
dm = mk("leaf e { type empty; } leaf u { type union { type uint8; type empty; } }")
assert val(dm, {"m:e": [None]}) == "ok"
for bad in ({"a": 1}, 7, [1], [], "", "x", None, [None, None], {"0": None}):
    r = val(dm, {"m:e": bad})
    assert r.startswith(("YangTypeError", "RawTypeError", "RawMemberError")), (bad, r)
assert not val(dm, {"m:u": 1000}).startswith(("KeyError", "TypeError"))
'''
