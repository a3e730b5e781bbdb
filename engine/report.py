"""Obligations, violations, floors, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, world, key):
        self.pid, self.tier, self.world, self.key = pid, tier, world, key
        self.t0 = time.time()
        self.rules = {}       # rule -> dict(text, checked, ok, samples)
        self.viol = {}        # key -> dict
        self.counts = {}
        self.notes = []
        self.assumptions = []

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"text": text, "obligations": 0, "discharged": 0, "samples": []})

    def ok(self, rid, what="", n=1):
        r = self.rules[rid]
        r["obligations"] += n
        r["discharged"] += n
        if what and len(r["samples"]) < 6:
            r["samples"].append(what)

    def fail(self, rid, key, msg, at=None, path=None):
        """key must not hold line numbers"""
        self.rules[rid]["obligations"] += 1
        k = f"{rid}:{key}"
        self.viol.setdefault(k, {"rule": rid, "key": k, "message": msg, "at": at, "path": path or []})

    def expect(self, rid, cond, key, msg, at=None, what="", path=None):
        if cond:
            self.ok(rid, what or key)
        else:
            self.fail(rid, key, msg, at, path)
        return cond

    def count(self, name, n, floor=None, rid=None):
        self.counts[name] = n
        if floor is not None and n < floor:
            r = rid or next(iter(self.rules))
            self.fail(r, f"floor:{name}", f"only {n} instances of {name} were found, at least {floor} are expected: the rule no longer sees its anchors")

    def finish(self):
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        known = {f["key"]: f for f in kf["findings"] if f["property"] == self.pid}
        new = {k: v for k, v in self.viol.items() if k not in known}
        hit = {k: v for k, v in self.viol.items() if k in known}
        ev = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
        os.makedirs(ev, exist_ok=True)
        obl = sum(r["obligations"] for r in self.rules.values())
        dis = sum(r["discharged"] for r in self.rules.values())
        expl = "; ".join(f"[{k}] {r['text']}: {r['discharged']}/{r['obligations']} obligations" for k, r in self.rules.items())
        doc = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "static analysis of the type-checked MIR of /repo's current tree. " + expl,
                "obligations": obl, "discharged": dis, "known_findings": len(hit),
                "counts": self.counts,
                "rules": self.rules,
                "facts_key": self.key,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
            "assumptions": self.assumptions,
        }
        json.dump(doc, open(os.path.join(ev, f"{self.pid}.json"), "w"), indent=1, default=str)
        for rid, r in self.rules.items():
            print(f"{self.pid} {rid}: {r['discharged']}/{r['obligations']} obligations discharged  ({r['text']})")
        for k, n in self.counts.items():
            print(f"{self.pid} count {k} = {n}")
        for k in sorted(hit):
            print(f"KNOWN-FINDING: property={self.pid} {known[k].get('what', hit[k]['message'])} [{k}]")
        for k in known:
            if k not in self.viol:
                print(f"note: known finding no longer present: {k}")
        if new:
            rp = os.path.join(ev, f"{self.pid}.violations.json")
            json.dump(list(new.values()), open(rp, "w"), indent=1, default=str)
            for k, v in sorted(new.items()):
                at = f" at {v['at']}" if v["at"] else ""
                print(f"  {k}{at}: {v['message']}")
                for p in v["path"]:
                    print(f"      {p}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid}: held on everything analysed ({obl} obligations, {len(hit)} known findings)")
        return 0
