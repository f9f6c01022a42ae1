prop="C12"
needs="two lists of the same local name from different modules side by side in the same container"
breaks="entries of the other module's list are taken for entries of the first one"
edits=[("schemanode.py", """        if tagname is None or qn == tagname:
            if isinstance(self, ListNode):
                pref""", """        if tagname is None or qn.endswith(":" + self.name):
            if isinstance(self, ListNode):
                pref""")]
demo='''
dm = mk("container c { leaf-list y { type string; } }", mods={"n": """module n { yang-version 1.1; namespace "urn:n"; prefix n;
 import m { prefix m; } augment "/m:c" { leaf-list y { type string; } } }"""})
r = dm.from_raw({"m:c": {"y": ["q"], "n:y": ["a", "b"]}})
e = r.to_xml()
import xml.etree.ElementTree as ET
e = ET.fromstring(ET.tostring(e))
assert dm.from_xml(e).raw_value() == r.raw_value()
'''
