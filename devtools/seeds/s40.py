prop="C32"
needs="a block comment that ends with two or more asterisks, followed by another comment"
breaks="the comment is taken to extend to the end of the next one, statements between are lost"
edits=[("statement.py", """                "": lambda: 4,
                "/": lambda: 0,
                "*": lambda: 5
            }])""", """                "": lambda: 4,
                "/": lambda: 0
            }])""")]
demo='''
from yangson.statement import ModuleParser
m = ModuleParser("module m { /* x **/ a; /* y */ b; }").parse()
assert [s.keyword for s in m.substatements] == ["a", "b"]
'''
