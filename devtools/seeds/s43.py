prop="C43"
needs="a directory of the search path with an outdated file named by the module alone before the directory with the right one"
breaks="the search ends at the first directory that has a file of that name, whatever revision is in it"
edits=[("schemadata.py", """                        res = ModuleParser(infile.read(), name, rev).parse()
""", """                        try:
                            res = ModuleParser(infile.read(), name, rev).parse()
                        except ModuleContentMismatch:
                            if run:
                                raise ModuleNotFound(name, rev) from None
                            raise
""")]
demo='''
d, e = tempfile.mkdtemp(), tempfile.mkdtemp()
t = 'module m { yang-version 1.1; namespace "urn:m"; prefix m; revision %s; leaf x { type string; } }'
open(d + "/m.yang", "w").write(t % "2019-01-01")
open(e + "/m.yang", "w").write(t % "2020-01-01")
lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [{"name": "m", "revision": "2020-01-01", "namespace": "urn:m", "conformance-type": "implement"}]}}
assert DataModel(json.dumps(lib), [d, e]).schema_data.modules[("m", "2020-01-01")].path == e + "/m.yang"
'''
