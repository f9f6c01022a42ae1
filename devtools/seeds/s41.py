prop="C32"
needs="a quoted string with an escaped backslash right before its closing quote, followed by another string on the line"
breaks="the escaped backslash hides the closing quote"
edits=[("statement.py", """            {  # state 1: after escape
                "": lambda: 0
            }])""", """            {  # state 1: after escape
                "": lambda: 0,
                "\\\\": lambda: 1
            }])""")]
demo='''
from yangson.statement import ModuleParser
m = ModuleParser('module m { a "x' + chr(92) * 2 + '"; b "y' + chr(92) * 2 + '"; }').parse()
assert [s.argument for s in m.substatements] == ["x" + chr(92), "y" + chr(92)]
'''
