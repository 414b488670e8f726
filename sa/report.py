"""Obligations, violations, known findings and evidence of one check run."""
import json
import os
import time

from build import VERIF


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []            # (rule, key, ok, detail, site)
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.notes = []
        self.assumptions = []
        self._keys = {}

    # -- recording
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, ok, detail="", site=""):
        """one obligation: `key` identifies the construct without line numbers"""
        k = (rule, key)
        old = self._keys.get(k)
        if old is not None:
            if not ok and self.obs[old][2]:
                self.obs[old] = (rule, key, False, detail, site)
            return ok
        self._keys[k] = len(self.obs)
        self.obs.append((rule, key, bool(ok), detail, site))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(str(s)[:600])

    def interp(self, I, name=""):
        """account for an abstract-interpretation run"""
        self.count("analysis_steps", I.nsteps)
        self.count("supergraph_nodes", len(I.succ))
        self.count("call_contexts", len(I.ctxs))
        self.count("calls_inlined", I.calls_resolved)
        self.count("calls_modelled", I.calls_opaque)
        fs = self.counts.setdefault("functions", [])
        for p in sorted(I.fns):
            if p not in fs:
                fs.append(p)

    # -- output
    def finish(self, level, explanation):
        kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            with open(p) as fh:
                kf = [x for x in json.load(fh)["findings"] if x["property"] == self.prop]
        bad = [o for o in self.obs if not o[2]]
        viol, known = [], []
        for o in bad:
            m = [x for x in kf if x["rule"] == o[0] and x["key"] == o[1]]
            (known if m else viol).append((o, m[0] if m else None))
        for o, x in known:
            print(f"KNOWN-FINDING: property={self.prop} {x['what']}")
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        rp = os.path.join(ev_dir, f"{self.prop}.report.json")
        with open(rp, "w") as fh:
            json.dump({"property": self.prop, "violations": [
                {"rule": o[0], "rule_text": self.rules.get(o[0], ""), "construct": o[1], "why": o[3], "site": o[4]}
                for o, _ in viol], "known": [{"rule": o[0], "construct": o[1], "site": o[4]} for o, _ in known]},
                fh, indent=1)
        fns = self.counts.pop("functions", [])
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "obligations": len(self.obs),
            "discharged": len([o for o in self.obs if o[2]]),
            "known_findings": len(known),
            "functions_analysed": fns,
            "samples": [f"{o[0]}: {o[1]} -> {'holds' if o[2] else 'FAILS'}"
                        + (f" [{o[4]}]" if o[4] else "") + (f" {o[3]}" if o[3] else "")
                        for o in self.obs[:60]] + self.samples,
        }
        cov.update(self.counts)
        if self.notes:
            cov["notes"] = self.notes
        with open(os.path.join(ev_dir, f"{self.prop}.json"), "w") as fh:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}, fh, indent=1)
        print(f"{self.prop}: {len(self.obs)} obligations, {len(self.obs) - len(bad)} hold, "
              f"{len(known)} known findings, {len(viol)} violations")
        for o, _ in viol:
            print(f"  {o[0]}: {o[1]}: {o[3]} [{o[4]}]\n     rule: {self.rules.get(o[0], '')}")
        if viol:
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0
