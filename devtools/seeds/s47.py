prop="C34"
needs="an annotation whose value is not in its type"
breaks="reporting an annotation value of the wrong type dies with AttributeError"
edits=[("schemanode.py", """raise AnnotationTypeError(jptr, mem, an.type.error_message)""", """raise AnnotationTypeError(jptr, mem, an.error_message)""")]
demo='''
from yangson.exceptions import AnnotationTypeError
md = 'module ietf-yang-metadata { namespace "urn:ietf-yang-metadata"; prefix md; extension annotation { argument name; } }'
dm = mk("leaf x { type string; } md:annotation a { type uint8 { range 1..5; } }", hdr="import ietf-yang-metadata { prefix md; }", mods={"ietf-yang-metadata": md})
dm.from_raw({"m:x": "y", "@m:x": {"m:a": 3}})
try:
    dm.from_raw({"m:x": "y", "@m:x": {"m:a": 7}})
    assert False
except AnnotationTypeError:
    pass
'''
