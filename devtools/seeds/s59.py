prop="C48"
needs="XML output with a filter that looks at the parent of list entries"
breaks="the filter is told that the parent of a list entry is the object that holds the list, not the list (as in JSON output)"
edits=[("instance.py", """                            add1 = filter.begin_element(m, en, e_attr)
""", """                            add1 = filter.begin_element(self, en, e_attr)
""")]
demo='''
from yangson.instance import OutputFilter
dm = mk("container c { list l { key k; leaf k { type string; } } }")
i = dm.from_raw({"m:c": {"l": [{"k": "a"}, {"k": "b"}]}})
class Limit(OutputFilter):
    "Hides all but the last entry of list l."
    def begin_element(self, parent, node, attributes):
        return not (parent.name == "l" and node.index < len(parent.value) - 1)
assert i.raw_value(Limit()) == {"m:c": {"l": [{"k": "b"}]}}
x = i.to_xml(Limit())
assert len(x[0]) == 1 and x[0][0][0].text == "b", len(x[0])
'''
