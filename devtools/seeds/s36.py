prop="C23"
needs="looking up a list entry by a non-key leaf that the first entries lack"
breaks="peek stops at the first entry that lacks a selected leaf instead of continuing with the next one"
edits=[("instance.py", """            except KeyError:
                continue
            if flag:
                return (en, sn)
""", """            except KeyError:
                break
            if flag:
                return (en, sn)
""")]
demo='''
dm = mk("list l { key k; leaf k { type string; } leaf v { type string; } }")
i = dm.from_raw({"m:l": [{"k": "a"}, {"k": "b", "v": "x"}]})
r = dm.parse_instance_id("/m:l[v='x']/k")
assert i.goto(r).value == "b"
assert i.peek(r) == "b"
'''
