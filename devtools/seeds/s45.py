prop="C22"
needs="YANG library data with a module that a first module set only imports and a second one implements"
breaks="the converted library has the module for import only"
edits=[("convert8525.py", """                ment = MainModuleData(yam, import_only=False)
                modules[ment.key()] = ment""", """                ment = MainModuleData(yam, import_only=False)
                modules.setdefault(ment.key(), ment)""")]
demo='''
import subprocess, sys
d = tempfile.mkdtemp()
m = {"name": "m", "namespace": "urn:m", "revision": "2020-01-01"}
lib = {"ietf-yang-library:yang-library": {"content-id": "1", "module-set": [{"name": "a", "import-only-module": [m]}, {"name": "b", "module": [m]}],
       "schema": [{"name": "s", "module-set": ["a", "b"]}], "datastore": [{"name": "ietf-datastores:running", "schema": "s"}]}}
open(d + "/lib.json", "w").write(json.dumps(lib))
r = subprocess.run([sys.executable, "-m", "yangson.convert8525", "-p", "yang-modules/ietf", d + "/lib.json"], env=dict(os.environ, PYTHONPATH=os.getcwd()), capture_output=True, text=True)
assert r.returncode == 0, r.stderr
mods = json.loads(r.stdout)["ietf-yang-library:modules-state"]["module"]
assert [x["conformance-type"] for x in mods] == ["implement"]
'''
