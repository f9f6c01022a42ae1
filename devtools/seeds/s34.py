prop="C42"
needs="an implemented module whose only import of another implemented module is in a submodule"
breaks="imports found in submodules do not order the modules"
edits=[("schemadata.py", """                if mm in impl and imid in impl:
""", """                if mid in impl and imid in impl:
""")]
demo='''
def order(a, b):
    dm = mk("", extra=["module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s; include s; }" % (a, a, a)])
    return dm
import yangson.schemadata as sd
from yangson import DataModel
def seq(names):
    d = tempfile.mkdtemp()
    u, s = names
    texts = {u: f"module {u} {{ yang-version 1.1; namespace 'urn:{u}'; prefix u; include {s}; }}",
             "t": "module t { namespace 'urn:t'; prefix t; container c; }",
             s: f"submodule {s} {{ yang-version 1.1; belongs-to {u} {{ prefix u; }} import t {{ prefix t; }} augment '/t:c' {{ leaf x {{ type string; }} }} }}"}
    for n, t in texts.items():
        open(f"{d}/{n}.yang", "w").write(t)
    out = []
    for ml in ([u, "t"], ["t", u]):
        lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
            {"name": n, "revision": "", "namespace": f"urn:{n}", "conformance-type": "implement", **({"submodule": [{"name": s, "revision": ""}]} if n == u else {})} for n in ml]}}
        try:
            dm = DataModel(json.dumps(lib), (d,))
            ms = [m[0] for m in dm.schema_data._module_sequence]
            out.append(ms.index("t") < ms.index(u))
        except Exception as e:
            out.append(type(e).__name__)
    return out
assert all(x is True for n in (("u", "us"), ("a", "as")) for x in seq(n))
'''
