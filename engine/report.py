"""Collects obligations and violations of one check, and reports them."""

import json
import os
import re
import sys
import time

from .facts import VERIF, loc

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.obligations = []     # (key, where)
        self.violations = []      # (key, where, message)
        self.counts = {}
        self.assumptions = []
        self.notes = []

    def ob(self, key, where=""):
        """One obligation that was examined."""
        self.obligations.append((key, where))

    def bad(self, key, where, message):
        """A violation. `key` names the construct without line numbers."""
        if not isinstance(where, str):
            where = loc(where)
        if (key, where, message) not in self.violations:
            self.violations.append((key, where, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, have, want):
        """Fails closed if fewer instances were found than exist today."""
        self.counts[name] = have
        if have < want:
            self.bad("floor:" + name, "-", "only %d of at least %d %s were found: the rule no longer sees what it is about" % (have, want, name))

    def known(self):
        """Keys of listed, unrepaired findings of this property."""
        r = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
                    if m and m.group(1) == self.prop:
                        r[m.group(2)] = m.group(3)
        return r

    def finish(self):
        known = self.known()
        new = [v for v in self.violations if v[0] not in known]
        old = [v for v in self.violations if v[0] in known]
        for k in sorted({v[0] for v in old}):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[k], k))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        bad_keys = {v[0] for v in self.violations}
        discharged = len([o for o in self.obligations if o[0] not in bad_keys])
        samples = []
        seen = set()
        for k, w in self.obligations:
            if len(samples) >= 400:
                break
            s = "%s @ %s" % (k, w) if w else k
            if s not in seen:
                seen.add(s)
                samples.append(s)
        cov = {
            "explanation": self.rule,
            "rule": self.rule,
            "obligations": len(self.obligations),
            "discharged": discharged,
            "distinct_nontrivial": len({k for k, _ in self.obligations}),
            "counts": self.counts,
            "samples": samples,
            "exhaustive": True,
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.prop,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d obligations, %d discharged; %s" % (
            self.prop, len(self.obligations), discharged,
            ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        if not self.obligations and not new:
            new = [("no-obligations", "-", "the rule found nothing to examine")]
        if new:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            rp = os.path.join(VERIF, "replay", self.prop + ".txt")
            with open(rp, "w") as f:
                f.write("%s\nrule: %s\n\n" % (self.prop, self.rule))
                for k, w, m in new:
                    f.write("%s\n  at %s\n  %s\n\n" % (k, w, m))
            for k, w, m in new[:20]:
                print("  %s: [%s] %s" % (w, k, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
