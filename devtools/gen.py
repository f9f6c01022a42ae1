"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
AI = "path-sensitive abstract interpretation"


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "devtools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": ["yangson/" + f for f in p["files"]],
                        "mechanism": [{"name": n, "where": "yangson/" + w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, "yverif", "rules", p["id"].lower() + ".py"))
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not have:
        na.append({"property": p["id"], "reason": "no check registered yet (under construction)"})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"python3 -m yverif.run {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 -m yverif.run {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other",
                       "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -m yverif.selftest", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: the checks parse /repo/yangson with ast and never import or run it."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
