prop="C48"
needs="an annotated member, a filter that adds an attribute to it, another output afterwards"
breaks="attributes that a filter adds while XML is output stay in the instance"
edits=[("instance.py", """                m_attr = attr.get(cname, {}).copy()
""", """                m_attr = attr.get(cname, {})
""")]
demo='''
from yangson.instance import OutputFilter
dm = mk("md:annotation note { type string; } md:annotation origin { type string; } container c { leaf a { type string; } leaf b { type string; } }", hdr="import ietf-yang-metadata { prefix md; }",
        mods={"ietf-yang-metadata": 'module ietf-yang-metadata { namespace "urn:md"; prefix md; extension annotation { argument name; } }'})
i = dm.from_raw({"m:c": {"a": "x", "@a": {"m:note": "n"}, "b": "y"}})
old = i.raw_value()
class Tag(OutputFilter):
    def begin_member(self, parent, node, attributes):
        if node.name == "a":
            attributes["m:origin"] = "intended"
        return True
i.to_xml(Tag())
assert i.raw_value() == old, i.raw_value()
'''
