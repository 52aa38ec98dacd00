"""Writes checks/refusals.json from the analysed tree; run once, the file is then a fixed table."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import C12  # noqa: E402
from sa import loader  # noqa: E402

prog = loader.program()
ref, ch, loose = [], [], []
for q, l in sorted(C12.collect(prog).items()):
    for m, fn, r in l:
        if r:
            ref.append({"function": q, "module": m.name, "cases": [[C12.tolist(c), x] for c, x, _ in r]})
        for p, vals in sorted(C12.constants(fn).items()):
            a = C12.accepts_unknown(fn, p)
            if a is not None and a[1]:
                (loose if a[0] else ch).append({"function": q, "module": m.name, "parameter": p})
json.dump({"refusals": ref, "choices": ch}, open(os.path.join(os.path.dirname(os.path.abspath(C12.__file__)), "refusals.json"), "w"), indent=0)
print(len(ref), sum(len(e["cases"]) for e in ref), len(ch), len(loose))
for e in loose:
    print("accepts unknown:", e["function"], e["parameter"])
