#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "libdiskpp/include/diskpp/"
P = []   # (id, title, statement, over, quantifier text, why, files, mechanisms, note) ; note None -> not claimed, with reason
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na))
exec(open(V + "/tools/table.py").read())
for p in P:
    for x in p["files"]:
        if not os.path.exists("/repo/" + (I + x if not x.startswith(("libdiskpp", "apps", "/")) else x)): print("missing", p["id"], x)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": {"files": [I + x if not x.startswith(("libdiskpp", "apps", "/")) else x for x in p["files"]], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]: na.append({"property": p["id"], "reason": p["na"]}); continue
    if not glob.glob(V + "/harness/" + p["id"] + "*.cpp"): na.append({"property": p["id"], "reason": "no check built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": "bounded symbolic execution of the compiler's LLVM IR of the real code, assertions decided by z3 (exact real arithmetic / bit-vectors), counterexamples replayed natively",
        "level": "model_checking", "level_note": p["note"] or "Decided for every value of the symbolic inputs within the bounds written in the harness (//@bound) and evidence file; real arithmetic, so rounding is outside."})
m = {"version": 1, "setup_cmd": "make -s -C engine -j8", "hooks": {"guard": "VP_HOOKS", "enable": "no hook was needed: the checks compile /repo's headers and sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "tools/props.py regenerates this file and properties.jsonl. Known findings: known_findings.json. run.py is the runner, engine/ the symbolic executor, harness/ the specifications."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(na), "not applicable")
