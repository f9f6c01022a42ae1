prop="C24"
needs="a hash taken of an array value that is afterwards changed by a list method other than item assignment"
breaks="the cached hash goes stale, so equal arrays hash differently"
edits=[("instvalue.py", """        StructuredValue.__init__(self, ts)
        list.__init__(self, val)

    def __hash__(self) -> int:
        \"\"\"Return hash value for the receiver.\"\"\"
        return tuple([x.__hash__() for x in self]).__hash__()
""", """        StructuredValue.__init__(self, ts)
        list.__init__(self, val)
        self._hash = None

    def __setitem__(self, key: InstanceKey, value: Value) -> None:
        super().__setitem__(key, value)
        self._hash = None

    def __hash__(self) -> int:
        \"\"\"Return hash value for the receiver.\"\"\"
        if self._hash is None:
            self._hash = tuple([x.__hash__() for x in self]).__hash__()
        return self._hash
""")]
demo='''
from yangson.instvalue import ArrayValue
a = ArrayValue([1, 2]); hash(a); a.append(3)
b = ArrayValue([1, 2, 3])
assert a == b and hash(a) == hash(b)
'''
