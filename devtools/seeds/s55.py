prop="C46"
needs="deletion of a member or entry, timestamps read afterwards"
breaks="a deletion leaves the timestamp of the parent and its ancestors as it was"
edits=[("instance.py", """            raise NonexistentInstance(self, f"item '{key}'") from None
        return self._copy(newval)""", """            raise NonexistentInstance(self, f"item '{key}'") from None
        return self._copy(newval, self.timestamp)""")]
demo='''
import time
dm = mk("container c { leaf a { type string; } leaf b { type string; } }")
i = dm.from_raw({"m:c": {"a": "x", "b": "y"}})
old = i.timestamp
time.sleep(0.01)
c = i["m:c"].delete_item("a")
assert c.timestamp > old and c.top().timestamp > old
'''
