"""Writes checks/options.json from the analysed tree; run once, the file is then a fixed table."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import C10, C11  # noqa: E402
from sa import loader, report  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, "checks", "options.json")
api = set(json.load(open(os.path.join(HERE, "checks", "api.json"))))
prog = loader.program()
face, seen = {}, {}
for m, q, fn, cls in prog.functions():
    if m.name.startswith(C11.SKIP):
        continue
    seen[q] = seen.get(q, 0) + 1
    init = fn.name == "__init__" and cls is not None and any(a.startswith(cls.name + ".") or a == cls.name for a in api)
    if q in api or init:
        a = fn.args
        d = {p: C11.literal(v) for p, v in C11.defaults(fn).items()}
        face[q] = {"positional": [x.arg for x in a.posonlyargs + a.args], "defaults": {p: v for p, v in d.items() if v is not None}}
face = {q: v for q, v in sorted(face.items()) if seen[q] == 1}
old = json.load(open(PATH)) if os.path.exists(PATH) else {}
json.dump({"interface": face, "inert": old.get("inert", []), "validated": old.get("validated", []), "own": old.get("own", {}), "crossed": old.get("crossed", {})},
          open(PATH, "w"), indent=1)
