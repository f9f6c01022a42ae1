prop="C49"
needs="a node with several must statements of which not the last one is violated and has its own message"
breaks="the error about a violated must has the message of another must of the same node"
edits=[("schemanode.py", """                raise SemanticError(inst, m.error_tag, m.error_message)
""", """                msg = next((o.error_message for o in reversed(self.must) if o.error_message), None)
                raise SemanticError(inst, m.error_tag, msg)
""")]
demo='''
dm = mk('leaf a { must ". != 1" { error-message "not one"; } must ". != 2" { error-message "not two"; } type uint8; }')
assert val(dm, {"m:a": 2}) == "SemanticError: {/m:a} must-violation: not two"
assert val(dm, {"m:a": 1}) == "SemanticError: {/m:a} must-violation: not one", val(dm, {"m:a": 1})
'''
