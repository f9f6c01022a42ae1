prop="C22"
needs="instance data with an undecodable byte or broken JSON"
breaks="files that cannot be decoded are reported as invalid instances"
edits=[("__main__.py", """        print("Instance data:", str(e), file=sys.stderr)
        return 1
""", """        print("Instance data:", str(e), file=sys.stderr)
        return 1 if isinstance(e, OSError) else 3
""")]
demo='''
import subprocess, sys
d = tempfile.mkdtemp()
open(d + "/m.yang", "w").write('module m { yang-version 1.1; namespace "urn:m"; prefix m; leaf x { type string; } }')
lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [{"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement"}]}}
open(d + "/lib.json", "w").write(json.dumps(lib))
open(d + "/i.json", "w").write('{"m:x": ')
r = subprocess.run([sys.executable, "-m", "yangson", "-p", d, "-v", d + "/i.json", d + "/lib.json"], env=dict(os.environ, PYTHONPATH=os.getcwd()))
assert r.returncode == 1
'''
