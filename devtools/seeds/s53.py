prop="C45"
needs="operations validated, then all counters cleared"
breaks="clear_val_counters leaves the counters of operations and notifications as they were"
edits=[("schemanode.py", """        super().clear_val_counters()
        for c in self.children:
            c.clear_val_counters()""", """        super().clear_val_counters()
        for c in self.filter_children():
            c.clear_val_counters()""")]
demo='''
dm = mk("notification e { leaf z { type string; } } leaf a { type string; }")
i = dm.from_raw({"m:z": "y"}, "m:e")
from yangson.enumerations import ContentType
i.validate(ctype=ContentType.all)
assert "{1}" in dm.ascii_tree(val_count=True), dm.ascii_tree(val_count=True)
dm.clear_val_counters()
assert "{1}" not in dm.ascii_tree(val_count=True), dm.ascii_tree(val_count=True)
'''
