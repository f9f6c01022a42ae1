prop="C16"
needs="a chain of three subtractions or mixed additive operators"
breaks="subtraction associates to the right from the second operator on"
edits=[("xpathparser.py", """            self.adv_skip_ws()
            op2 = self._multiplicative_expr()
            op1 = AdditiveExpr(op1, op2, pm == "+")""", """            self.adv_skip_ws()
            op2 = (self._multiplicative_expr() if pm == "+" or not isinstance(op1, AdditiveExpr)
                   else self._additive_expr())
            op1 = AdditiveExpr(op1, op2, pm == "+")""")]
demo='''
dm = mk("container c { leaf a { type uint8; must \\"20 - 1 - 2 - 3 = 14\\"; } }")
r = val(dm, {"m:c": {"a": 1}})
assert r == "ok", r
'''
