prop="C47"
needs="a model with a pattern, pickled and restored in another process, then used for validation"
breaks="compiled patterns live in a class-level table that a restored model does not bring along"
edits=[("constraint.py", """    \"\"\"Class representing regular expression pattern.\"\"\"
""", """    \"\"\"Class representing regular expression pattern.\"\"\"

    _compiled: dict = {}

    @property
    def regex(self):
        \"\"\"Compiled form of the pattern, shared by equal patterns.\"\"\"
        return Pattern._compiled[self.pattern]
"""), ("constraint.py", """            self.regex = re.compile(translate_pattern(""", """            if pattern not in self._compiled:
                self._compiled[pattern] = re.compile(translate_pattern("""),
("constraint.py", """                lazy_quantifiers=False, anchors=False))
""", """                    lazy_quantifiers=False, anchors=False))
"""),("constraint.py", """                pattern, back_references=False,
""","""                    pattern, back_references=False,
""")]
demo='''
import pickle, subprocess, sys
dm = mk("leaf s { type string { pattern '[a-c]+'; } }")
d = tempfile.mkdtemp()
f = os.path.join(d, "dm.pickle")
pickle.dump(dm, open(f, "wb"))
code = "import pickle,sys\\ndm=pickle.load(open(sys.argv[1],'rb'))\\ndm.from_raw({'m:s':'abc'}).validate()\\n"
r = subprocess.run([sys.executable, "-c", code, f], cwd=os.getcwd())
os.unlink(f); os.rmdir(d)
assert r.returncode == 0
'''
