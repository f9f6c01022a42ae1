prop="C31"
needs="an if-feature with a prefix in a submodule that binds the prefix to another module than the main module does"
breaks="prefixes of features in submodules are resolved with the imports of the main module"
edits=[("schemadata.py", """            mdata = self.schema_data.modules[self.mid]
""", """            mdata = self.schema_data.modules[
                self.schema_data.modules[self.mid].main_module]
""")]
demo='''
from yangson import DataModel
import json, os, tempfile
sub = "submodule ms { yang-version 1.1; belongs-to m { prefix m; } import n { prefix x; } leaf s { if-feature x:f; type string; } }"
n = "module n { yang-version 1.1; namespace 'urn:n'; prefix n; feature f; }"
o = "module o { yang-version 1.1; namespace 'urn:o'; prefix o; feature f; }"
m = "module m { yang-version 1.1; namespace 'urn:m'; prefix m; import o { prefix x; } include ms; leaf a { if-feature x:f; type string; } }"
lib = {"ietf-yang-library:modules-state": {"module-set-id": "0", "module": [
    {"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement", "submodule": [{"name": "ms", "revision": ""}]},
    {"name": "n", "revision": "", "namespace": "urn:n", "conformance-type": "import", "feature": ["f"]},
    {"name": "o", "revision": "", "namespace": "urn:o", "conformance-type": "import"}]}}
with tempfile.TemporaryDirectory() as d:
    for f, t in (("m", m), ("ms", sub), ("n", n), ("o", o)):
        with open(os.path.join(d, f + ".yang"), "w") as fh:
            fh.write(t)
    dm = DataModel(json.dumps(lib), (d,))
assert val(dm, {"m:s": "x"}) == "ok", val(dm, {"m:s": "x"})
assert val(dm, {"m:a": "x"}) != "ok"
'''
