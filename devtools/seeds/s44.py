prop="C22"
needs="the environment variable YANG_MODPATH set and another directory given by --path"
breaks="the environment variable takes precedence over the option"
edits=[("__main__.py", """        sp = path if path else os.environ.get("YANG_MODPATH", ".")""", """        sp = os.environ.get("YANG_MODPATH", path if path else ".")""")]
demo='''
import subprocess, sys
d, e = tempfile.mkdtemp(), tempfile.mkdtemp()
open(d + "/m.yang", "w").write('module m { yang-version 1.1; namespace "urn:m"; prefix m; leaf x { type string; } }')
lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [{"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement"}]}}
open(e + "/lib.json", "w").write(json.dumps(lib))
env = dict(os.environ, PYTHONPATH=os.getcwd(), YANG_MODPATH=e)
r = subprocess.run([sys.executable, "-m", "yangson", "-p", d, e + "/lib.json"], env=env)
assert r.returncode == 0
'''
