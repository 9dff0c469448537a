#!/usr/bin/env python3
"""Regenerates DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/how.py").read())
o = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
M = json.load(open(V + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in M["not_applicable"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); o.append("### %s %s\n" % (p["id"], p["title"])); o.append(p["statement"] + "\n")
    if p["id"] in na: o.append("Not applicable: " + na[p["id"]] + "\n"); continue
    b, a, n = [], [], 0
    for f in sorted(glob.glob(V + "/harness/" + p["id"] + "*.cpp")):
        t = open(f).read(); b += re.findall(r"^//@bound (.*)", t, re.M); a += re.findall(r"^//@assume (.*)", t, re.M); n += len(re.findall(r"^VP_[HT]\(", t, re.M))
    o.append("- **Decided by**: %d harness functions (`harness/%s*.cpp`). %s" % (n, p["id"], HOW.get(p["id"], "")))
    o.append("- **Bounds**: " + "; ".join(b) + ".")
    if a: o.append("- **Assumptions**: " + "; ".join(a) + ".")
    o.append("- **Why tests cannot**: " + p["why_tests_cant"])
    c = V + "/tools/costs.json"
    if os.path.exists(c) and p["id"] in json.load(open(c)): o.append("- **Cost (quick, 8 cores)**: " + json.load(open(c))[p["id"]])
    o.append("")
o.append(open(V + "/tools/design_tail.md").read())
K = json.load(open(V + "/known_findings.json"))
o.append("## 5. Findings\n\nGenuine defects found by the checks and repaired in `/repo` (one `fix:` commit each):\n"); o += ["- " + x[7:] for x in K["fixed"]]
o.append("\nRecorded, not repaired:\n"); o += ["- %s `%s`: %s" % (x["property"], x["harness"], x["what"]) for x in K["findings"]]
o.append("\n## 6. Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
C = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], C.get(i, "?")))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
