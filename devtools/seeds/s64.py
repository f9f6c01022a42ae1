prop="C12"
needs="a list or leaf-list with at least two entries that one module adds to a container of another by augment"
breaks="only the first entry of the list is emitted in the namespace of its module"
edits=[("instance.py", """                                child = ET.Element(sn.name)
                                if not dp or dp.ns != sn.ns:
                                    module""", """                                child = ET.Element(sn.name)
                                if not dp or not childs and dp.ns != sn.ns:
                                    module""")]
demo='''
import xml.etree.ElementTree as ET
dm = mk("container c { leaf z { type string; } }", mods={"n": """module n { yang-version 1.1; namespace "urn:n"; prefix n;
 import m { prefix m; } augment "/m:c" { leaf-list t { type string; } } }"""})
i = dm.from_raw({"m:c": {"z": "q", "n:t": ["a", "b", "c"]}})
x = ET.fromstring(ET.tostring(i.to_xml()))
tags = sorted(e.tag for e in x[0])
assert tags == ["{urn:m}z"] + 3 * ["{urn:n}t"], tags
assert dm.from_xml(x).value == i.value
'''
