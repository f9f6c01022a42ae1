prop="C26"
needs="YANG library data that mark two revisions of one module as implemented"
breaks="the exception that tells it cannot be constructed: TypeError instead of MultipleImplementedRevisions"
edits=[("schemadata.py", "raise MultipleImplementedRevisions(name)", "raise MultipleImplementedRevisions(name, rev)")]
demo='''
from yangson.exceptions import MultipleImplementedRevisions
d = tempfile.mkdtemp()
for r in ("2020-01-01", "2021-01-01"):
    open(d + "/m@" + r + ".yang", "w").write('module m { yang-version 1.1; namespace "urn:m"; prefix m; revision %s; }' % r)
lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [{"name": "m", "revision": r, "namespace": "urn:m", "conformance-type": "implement"} for r in ("2020-01-01", "2021-01-01")]}}
try:
    DataModel(json.dumps(lib), [d])
    assert False
except MultipleImplementedRevisions as e:
    assert "m" in str(e)
'''
