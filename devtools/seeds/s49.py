prop="C34"
needs="instance data with an annotation that is not defined"
breaks="rejecting an undefined annotation raises TypeError from the constructor of the exception"
edits=[("schemanode.py", """                raise UndefinedAnnotation(jptr, mem)
""", """                raise UndefinedAnnotation(f"{jptr}/@{mem}")
""")]
demo='''
from yangson.exceptions import UndefinedAnnotation
dm = mk("leaf x { type string; }")
try:
    dm.from_raw({"m:x": "y", "@m:x": {"m:a": 7}})
    assert False
except UndefinedAnnotation:
    pass
'''
