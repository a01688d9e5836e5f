"""Obligations, violations, known findings, evidence."""
import hashlib
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, repo):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.obl = []          # (rule, construct, where, ok, detail)
        self.rules = {}
        self.functions = set()
        self.assumptions = []
        self.extra = {}
        self.t0 = time.time()
        self.errors = []

    def rule(self, name, text):
        self.rules[name] = text

    def seen(self, *funcs):
        for f in funcs:
            self.functions.add(getattr(f, "qual", str(f)))

    def graph(self, fl):
        self.seen(fl.g.root)
        self.functions.update(f.qual for f in fl.g.inlined)
        self.extra["cfg_nodes"] = self.extra.get("cfg_nodes", 0) + len(fl.g.live)

    def ok(self, rule, construct, where="", detail=""):
        self.obl.append((rule, construct, where, True, detail))

    def bad(self, rule, construct, where, detail):
        self.obl.append((rule, construct, where, False, detail))

    def check(self, cond, rule, construct, where="", detail=""):
        (self.ok if cond else self.bad)(rule, construct, where, detail if not cond else "")
        return bool(cond)

    def floor(self, what, n, minimum):
        """Analysis went blind: fewer instances than hand-confirmed. Not a verdict about the code."""
        self.extra.setdefault("instances", {})[what] = n
        if n < minimum:
            self.errors.append(f"only {n} instance(s) of {what} recognised, expected at least {minimum}")

    # -----------------------------------------------------------------
    def finish(self):
        known = load_known()
        bad = [o for o in self.obl if not o[3]]
        uniq = {}
        for o in bad:
            uniq.setdefault((o[0], o[1]), o)
        newv, kf = [], []
        for (rule, construct), o in uniq.items():
            k = known.get((self.prop, rule, construct))
            (kf if k else newv).append((rule, construct, o[2], o[4], k))
        rc = 0
        for rule, construct, where, detail, k in kf:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for rule, construct, where, detail, _ in newv:
            h = hashlib.sha1(f"{self.prop}|{rule}|{construct}".encode()).hexdigest()[:10]
            rp = os.path.join("evidence", "replay", f"{self.prop}-{h}.json")
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump({"property": self.prop, "rule": rule, "rule_text": self.rules.get(rule, ""),
                           "construct": construct, "where": where, "detail": detail,
                           "replay": f"./check {self.prop}"}, f, indent=1)
            print(f"{self.prop}: [{rule}] {construct}\n    at {where}\n    {detail}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            rc = 1
        if rc == 0 and self.errors:
            for e in self.errors:
                print(f"{self.prop}: ANALYSIS-ERROR {e}")
            rc = 2
        total = len(self.obl)
        byrule = {}
        for o in self.obl:
            byrule.setdefault(o[0], [0, 0])
            byrule[o[0]][0] += 1
            byrule[o[0]][1] += 1 if o[3] else 0
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "obligations": total,
                "discharged": total - len(bad),
                "checker_cmd": f"./check {self.prop}",
                "trusted_base": [
                    "the dataflow engine in /verif/sa (call resolution, inlining, exceptional CFG, reaching definitions)",
                    "the rule definitions in /verif/checks",
                    "CPython ast as the parser of /repo",
                ],
                "explanation": "static rules decided over the current source; every obligation is one construct checked against one rule",
                "rules": {r: {"text": self.rules.get(r, ""), "obligations": n, "discharged": d}
                          for r, (n, d) in sorted(byrule.items())},
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "samples": [f"[{o[0]}] {o[1]} @ {o[2]}" for o in self.obl[:: max(1, total // 25)]][:30],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(newv),
        }
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        status = {0: "holds", 1: "VIOLATED", 2: "analysis error"}[rc]
        print(f"{self.prop}: {status}; {total} obligations, {total - len(bad)} discharged, "
              f"{len(self.functions)} functions, {ev['wall_s']} s")
        return rc


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {(k["property"], k["rule"], k["construct"]): k for k in data.get("findings", [])}
