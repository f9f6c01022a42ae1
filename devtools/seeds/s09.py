prop="C09"
needs="a string type with several patterns where an invert-match pattern matches"
breaks="the error info describes a previous failure: no tag or message is set when an inverted pattern rejects the value"
edits=[("datatype.py", """        for p in self.patterns:
            if (p.regex.match(val) is not None) == p.invert_match:
                self._set_error_info(
""", """        for p in self.patterns:
            if p.invert_match and p.regex.match(val):
                return False
            if not p.invert_match and not p.regex.match(val):
                self._set_error_info(
""")]
demo='''
dm = mk('leaf a { type string { pattern "a.*"; pattern ".*b" { modifier invert-match; error-message "no b"; } } }')
r = val(dm, {"m:a": "ab"})
assert "no b" in r, r
'''
