prop="C43"
needs="a YANG library with two import-only revisions of a module, the newer listed first, and an import without revision-date"
breaks="an import without revision-date takes the revision listed last in the library rather than the newest one"
edits=[("schemadata.py", """        return sorted(revs, key=lambda x: x[1])[-1]""", """        return revs[-1]""")]
demo='''
d = tempfile.mkdtemp()
for r, t in (("2020-01-01", "uint8"), ("2018-01-01", "string")):
    open(d + "/t@%s.yang" % r, "w").write('module t { yang-version 1.1; namespace "urn:t"; prefix t; revision %s; typedef a { type %s; } }' % (r, t))
open(d + "/m.yang", "w").write('module m { yang-version 1.1; namespace "urn:m"; prefix m; import t { prefix t; } leaf x { type t:a; } }')
e = [{"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement"}] + [
    {"name": "t", "revision": r, "namespace": "urn:t", "conformance-type": "import"} for r in ("2020-01-01", "2018-01-01")]
dm = DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": e}}), [d])
assert dm.from_raw({"m:x": 5}).raw_value() == {"m:x": 5}
'''
