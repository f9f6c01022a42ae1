prop="C08"
needs="a range of three or more parts whose middle part is an interval, in a type derived from one with a parser of its own (decimal64)"
breaks="the membership test stops at the first interval lying above the value and treats its gap wrongly: a value between the last but one and the last part is accepted"
edits=[("constraint.py", """        for r in self.intervals:
            if len(r) == 1:
                if r[0] == value:
                    return True
            elif r[0] <= value <= r[1]:
                return True
        return False
""", """        for r in self.intervals[:-1]:
            if r[0] <= value <= r[-1]:
                return True
        lo, hi = self.intervals[-1][0], self.intervals[-1][-1]
        return lo <= value <= hi or (len(self.intervals) > 3 and
                                     self.intervals[-2][-1] < value <= hi)
""")]
demo='''
dm = mk('leaf a { type int32 { range "1..3 | 9 | 10..20 | 30"; } }')
for v, ok in ((1, 1), (9, 1), (12, 1), (30, 1), (4, 0), (29, 0)):
    assert (val(dm, {"m:a": v}) == "ok") == bool(ok), v
'''
