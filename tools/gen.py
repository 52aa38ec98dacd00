"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
EVAL = "abstract interpretation of the source (constant propagation over terms, path-partitioned) against a matrix oracle"
EVAL_NOTE = ("Static: the source is parsed and interpreted abstractly, never imported or run. Parameters stay symbolic terms; "
             "terms are compared with the oracle on a finite set of valuations, sizes are bounded as listed in DESIGN.md.")
FLOW_NOTE = ("Static: control-flow graphs and summaries are built from the parsed source; nothing is imported or run. "
             "Constructs outside the precision of the rule are counted as undecided and never reported.")


def prop(id, title, statement, over, qtext, why, files, mech, technique=EVAL, note=EVAL_NOTE, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "table.py")).read())

P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
nas = {n["property"] for n in NA}
checks = []
for p, t, n in P:
    if p["id"] in nas:
        continue
    if not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
        raise SystemExit("no check for " + p["id"])
    checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"],
                   "thorough_cmd": "python3-vt check.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "other", "level_note": n})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q sa checks", "checks": checks, "not_applicable": NA,
     "notes": "All checks parse /repo/src on every run. Known findings are listed in known_findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks", len(NA), "not applicable")
