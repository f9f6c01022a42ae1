prop="C26"
needs="a fault at the very beginning of a line of a module or expression of several lines"
breaks="the position in the message of the parser error has a column counted from the line before"
edits=[("parser.py", """self.offset - self.input.rfind("\\n", 0, self.offset) - 1)""", """self.offset - self.input.rfind("\\n", 0, self.offset - 1) - 1)""")]
demo='''
from yangson.exceptions import ParserException
dm = mk("container c { leaf a { type string; } }")
from yangson.statement import ModuleParser
def where(text):
    try:
        ModuleParser(text, "x").parse()
    except ParserException as e:
        return str(e)
t = "module x {\\n  container c {\\n;"
assert where(t).startswith("line 3, column 0")
'''
