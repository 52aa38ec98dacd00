"""Add a fixed finding: tools/fixed.py PROPERTY COMMIT RULE CONSTRUCT WHAT"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def add(rows):
    f = os.path.join(HERE, "known_findings.json")
    d = json.load(open(f))
    for prop, commit, rule, construct, what in rows:
        if any(x.get("commit") == commit and x["construct"] == construct for x in d["findings"]):
            continue
        d["findings"].append({"property": prop, "rule": rule, "construct": construct, "status": "fixed", "commit": commit,
                              "what": "fixed: property=%s %s %s" % (prop, commit, what)})
    with open(f, "w") as h:
        json.dump(d, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    p, c, r, k, w = sys.argv[1:]
    add([(p, c, r, k, w)])
