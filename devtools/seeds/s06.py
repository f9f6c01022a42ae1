prop="C05"
needs="two case members from different cases of a choice, the first case containing optional members only"
breaks="members of two different cases are accepted together"
edits=[("schpattern.py", """        return Alternative.combine(self.left.deriv(x, ctype),
                                   self.right.deriv(x, ctype))
""", """        lder = self.left.deriv(x, ctype)
        if isinstance(lder, NotAllowed):
            return self.right.deriv(x, ctype)
        if not lder.nullable(ctype):
            return Alternative.combine(lder, self.right.deriv(x, ctype))
        return Alternative.combine(lder, self.right)
""")]
demo='''
dm = mk('choice ch { case one { leaf a { type string; } leaf b { type string; } } case two { leaf c { type string; } leaf d { type string; } } }')
assert val(dm, {"m:a": "1", "m:b": "1"}) == "ok"
assert val(dm, {"m:c": "1", "m:d": "1"}) == "ok"
for x in "ab":
    for y in "cd":
        assert val(dm, {"m:" + x: "1", "m:" + y: "1"}) != "ok"
        assert val(dm, {"m:" + y: "1", "m:" + x: "1"}) != "ok"
'''
