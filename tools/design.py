#!/opt/venv/bin/python
"""Fills DESIGN.md from DESIGN.in.md, properties.jsonl, the findings file and the planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
sys.path.insert(0, os.path.join(V, "tools"))
from design_notes import NOTES
out = []
for p in props:
    i = p["id"]; n = NOTES[i]
    src = open(f"{V}/vmon/props/{i.lower()}.py", encoding="utf-8").read()
    cases = re.search(r"^CASES = (.*)$", src, re.M).group(1)
    out.append(f"### {i} {p['title']}\n\n*Monitored:* {n[0]}\n\n*Oracle:* {n[1]}\n\n*Bounds and cost:* {n[2]} Cases: `{cases}`.\n\n*Beyond the tests:* {p['why_tests_cant']}\n")
kf = json.load(open(V + "/known_findings.json"))
find = ["Repaired in `/repo` (one `fix:` commit each; the checks report them again should they return):", ""] + ["* " + f for f in kf["fixed"]] + ["", "Recorded, not repaired:", ""]
find += [f"* `{f['id']}` ({f['property']}): {f['what']}. The auction compares single traders with a price that several traders of the category pay; a repair would be another mechanism, hence recorded." for f in kf["findings"]]
find += ["", "How they were found and why they are defects, not false alarms: each fails on a concrete input against the real code (replayed by hand) and contradicts the code's own documentation or the paper."]
caught = {}
if os.path.exists(V + "/tools/caught.json"): caught = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    c = caught.get(b)
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {'not run' if c is None else (', '.join(c) or '**missed**')} |")
s = open(V + "/tools/DESIGN.in.md").read()
s = s.replace("@@TABLE@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(find)).replace("@@SEEDED@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
