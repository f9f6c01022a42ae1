prop="C28"
needs="raw data with metadata of a leaf that is an annotated member of a list entry or with an annotation value outside its type"
breaks="an annotation value outside its type but of the right JSON kind is accepted when the annotation is given on a member rather than on an object"
edits=[("schemanode.py", """            res[mem] = an.type.from_raw(rmo[mem])
            if res[mem] not in an.type:
                raise AnnotationTypeError(jptr, mem, an.type.error_message)
""", """            res[mem] = an.type.from_raw(rmo[mem])
            if res[mem] is None:
                raise AnnotationTypeError(jptr, mem, an.type.error_message)
""")]
demo='''
import os
from yangson.exceptions import *
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
open(d + '/m.yang', 'w').write('module m { yang-version 1.1; namespace "urn:m"; prefix m; import ietf-yang-metadata { prefix md; } md:annotation cnt { type uint8; } leaf a { type string; } }')
open(d + '/ietf-yang-metadata.yang', 'w').write('module ietf-yang-metadata { namespace "urn:ietf:params:xml:ns:yang:ietf-yang-metadata"; prefix md; extension annotation { argument name; } }')
lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
    {"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement"},
    {"name": "ietf-yang-metadata", "revision": "", "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-metadata", "conformance-type": "import"}]}}
dm = DataModel(json.dumps(lib), [d])
dm.from_raw({"m:a": "x", "@m:a": {"m:cnt": 5}})
try:
    dm.from_raw({"m:a": "x", "@m:a": {"m:cnt": 300}})
except AnnotationTypeError:
    pass
else:
    raise AssertionError("300 accepted as uint8 annotation")
'''
