prop="C03"
needs="look_up by more than one key where an entry matches the first key but not a later one, followed by an entry that matches"
breaks="look_up gives up at the first entry that agrees in the first key but differs in another"
edits=[("instance.py", """                    if en[k] != keys[k]:
                        flag = False
                        break
                except KeyError:
                    flag = False
                    break
            if flag:
                return self._entry(i)
""", """                    if en[k] != keys[k]:
                        flag = False
                        break
                except KeyError:
                    flag = len(keys) > 1 and k in self.schema_node._key_members
                    break
            if flag:
                return self._entry(i)
""")]
demo='''
dm = mk('list l { config false; key "a b"; leaf a { type string; } leaf b { type string; } leaf v { type string; } }')
r = dm.from_raw({"m:l": [{"a": "1", "v": "first"}, {"a": "1", "b": "2", "v": "second"}]})
assert r["m:l"].look_up(a="1", b="2")["v"].value == "second"
'''
