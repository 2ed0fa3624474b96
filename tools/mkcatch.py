"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {"b04": "missed at first: sizes changed to 1 added to C14", "b09": "missed at first: `pristine` stratum", "b14": "missed at first: gated recurrences", "c08": "missed at first: autograd functions called directly",
        "c11": "missed at first: changed ranks; exposed a genuine defect (2d68362)", "c23": "missed at first: size-1 mutations", "b23": "also C25"}
extra = os.path.join(V, "tools", "catchnotes.json")
if os.path.exists(extra):
    NOTE |= json.load(open(extra))
rows = ["| id | caught by | breaks | needs | remark |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m, i = json.load(open(d + "meta.json")), os.path.basename(d[:-1])
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {NOTE.get(i, '')} |")
p = V + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- catch table -->", "<!-- end -->"
if "CATCHTABLE" in t:
    t = t.replace("CATCHTABLE", a + "\n" + b)
h, r = t.split(a)
open(p, "w").write(h + a + "\n" + "\n".join(rows) + "\n" + b + r.split(b)[1])
