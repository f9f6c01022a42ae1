prop="C16"
needs="a uses statement whose when expression has trailing text"
breaks="trailing garbage in the when of uses is ignored"
edits=[("schemanode.py", """            xpp = XPathParser(wst.argument, sctx)
            wex = xpp.parse()
            if not xpp.at_end():
                raise InvalidArgument(wst.argument)
            sn.when = wex""", """            xpp = XPathParser(wst.argument, sctx)
            sn.when = xpp.parse()""")]
demo='''
from yangson.exceptions import YangsonException
try:
    mk("grouping g { leaf x { type string; } } container c { leaf a { type string; } uses g { when \\"a = 1) and b\\"; } }")
except YangsonException:
    pass
else:
    raise AssertionError("accepted")
'''
