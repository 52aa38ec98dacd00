"""Obligation bookkeeping, known findings, evidence files and exit status."""
import json
import os
import sys
import time

from . import loader

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    """The construct a rule is about can no longer be located."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.prog = loader.program()
        self.t0 = time.time()
        self.rules = {}            # rule -> [checked, unresolved]
        self.rule_text = {}
        self.violations = []
        self.unresolved_list = []
        self.floors = {}
        self.functions = set()
        self.extra = {}
        self.samples = {}
        self.share = (0, 1)        # this process decides every n-th obligation
        self.turn = -1

    def mine(self):
        """Whether the next obligation is decided by this process."""
        self.turn += 1
        return self.turn % self.share[1] == self.share[0]

    def state(self):
        return {"rules": self.rules, "rule_text": self.rule_text, "violations": self.violations, "unresolved": self.unresolved_list,
                "floors": self.floors, "functions": self.functions, "extra": self.extra, "samples": self.samples, "modules": len(self.prog.modules)}

    def merge(self, st):
        for r, (a, b) in st["rules"].items():
            c = self.rules.setdefault(r, [0, 0])
            c[0] += a
            c[1] += b
        self.rule_text.update(st["rule_text"])
        self.floors.update(st["floors"])
        for v in st["violations"]:
            if not any(v["rule"] == x["rule"] and v["construct"] == x["construct"] for x in self.violations):
                self.violations.append(v)
        self.unresolved_list += st["unresolved"]
        self.functions |= st["functions"]
        self.extra.update(st["extra"])
        self.modules = max(getattr(self, "modules", 0), st["modules"])
        for r, s in st["samples"].items():
            self.samples[r] = (self.samples.get(r, []) + s)[:12]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, rid, text, floor=1):
        self.rules.setdefault(rid, [0, 0])
        self.rule_text[rid] = text
        self.floors[rid] = floor

    def ok(self, rid, construct=None):
        self.rules.setdefault(rid, [0, 0])[0] += 1
        if construct is not None:
            s = self.samples.setdefault(rid, [])
            if len(s) < 12:
                s.append(str(construct))

    def unresolved(self, rid, construct, why):
        self.rules.setdefault(rid, [0, 0])[1] += 1
        if len(self.unresolved_list) < 200:
            self.unresolved_list.append({"rule": rid, "construct": str(construct), "why": str(why)[:300]})

    def violate(self, rid, construct, where, detail):
        """construct: stable key (no line numbers); where: human location."""
        self.rules.setdefault(rid, [0, 0])[0] += 1
        key = (rid, construct)
        for v in self.violations:
            if (v["rule"], v["construct"]) == key:
                return
        self.violations.append({"rule": rid, "construct": construct, "where": where, "detail": str(detail)[:2000]})

    def visit(self, *nodes):
        for n in nodes:
            self.functions.add("%s:%s" % (loader.loc(n).split(":")[0], getattr(n, "name", "<lambda>")))

    def visit_world(self, w):
        for n in w.touched:
            self.visit(n)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(ctx):
    known = [k for k in known_findings() if k["property"] == ctx.pid and k.get("status") == "known"]
    new, old = [], []
    for v in ctx.violations:
        hit = None
        for k in known:
            if k["rule"] == v["rule"] and k["construct"] == v["construct"]:
                hit = k
        (old if hit else new).append((v, hit))
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (ctx.pid, k["what"], v["rule"], v["construct"]))
    lost = [r for r, f in ctx.floors.items() if ctx.rules[r][0] < f]
    total = sum(r[0] for r in ctx.rules.values())
    unres = sum(r[1] for r in ctx.rules.values())
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    evidence = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: each obligation is one application of a rule to one "
                           "construct (function, call site, table entry, path). 'decided' obligations were proved or "
                           "refuted by the rule; 'undecided' ones left the analysis' precision and count for nothing.",
            "modules_parsed": getattr(ctx, "modules", len(ctx.prog.modules)),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:400],
            "obligations_decided": total,
            "obligations_undecided": unres,
            "rules": {r: {"text": ctx.rule_text.get(r, ""), "decided": c[0], "undecided": c[1],
                          "examples": ctx.samples.get(r, [])} for r, c in ctx.rules.items()},
            "undecided": ctx.unresolved_list[:60],
            **ctx.extra,
        },
        "assumptions": ["third-party packages behave as documented", "no monkey patching of the package at run time"],
        "violations": [v for v, _ in new],
        "known_findings": [v for v, _ in old],
        "wall_s": round(time.time() - ctx.t0, 3),
    }
    path = os.path.join(ev_dir, ctx.pid + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for r, c in ctx.rules.items():
        print("rule %s: decided=%d undecided=%d  %s" % (r, c[0], c[1], ctx.rule_text.get(r, "")))
    if new:
        rp = os.path.join(ev_dir, ctx.pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": ctx.pid, "violations": [v for v, _ in new],
                       "replay": "python3-vt %s/check.py %s" % (HERE, ctx.pid)}, f, indent=1, default=str)
        for v, _ in new:
            print("%s: %s: %s -- %s" % (v["where"], v["rule"], v["construct"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if lost:
        for r in lost:
            print("ERROR rule %s decided only %d obligations (expected at least %d)" % (r, ctx.rules[r][0], ctx.floors[r]))
        return 3
    print("HELD property=%s decided=%d undecided=%d functions=%d wall=%.1fs" % (
        ctx.pid, total, unres, len(ctx.functions), time.time() - ctx.t0))
    return 0
