"""Obligations, verdicts, evidence files."""
import hashlib, json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obls = []          # (rule, subject, ok, detail, key)
        self.notes = []
        self.counts = {}

    def ob(self, rule, subject, ok, detail="", key=None):
        """One obligation.  `key` identifies a failure independently of line numbers."""
        self.obls.append((rule, subject, bool(ok), detail, key or "%s|%s" % (rule, subject)))
        return ok

    def note(self, s):
        self.notes.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        known = load_known(self.pid)
        bad, seen, open_ = [], set(), []
        for rule, subj, ok_, detail, key in self.obls:
            if not ok_:
                if key in known:
                    if key not in seen:
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
                    seen.add(key)
                elif key.startswith("imprecise|"):
                    open_.append((rule, subj, detail, key))
                else:
                    bad.append((rule, subj, detail, key))
        if not self.obls:
            open_.append(("coverage", "no obligation was generated", "the check analysed nothing", "imprecise|empty"))
        path = None
        if bad:
            d = os.path.join(VERIF, ".build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.txt" % self.pid)
            with open(path, "w") as f:
                for rule, subj, detail, key in bad:
                    f.write("rule: %s\nconstruct: %s\nkey: %s\n%s\n\n" % (rule, subj, key, detail))
        n = len(self.obls)
        good = sum(1 for o in self.obls if o[2])
        rules = {}
        for o in self.obls:
            r = rules.setdefault(o[0], [0, 0])
            r[0] += 1
            r[1] += o[2]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the MIR of the current tree; obligations=%d discharged=%d; %s" % (
                    n, good, "; ".join("%s: %d/%d" % (k, v[1], v[0]) for k, v in sorted(rules.items()))),
                "obligations": n, "discharged": good, "rules": {k: {"checked": v[0], "holds": v[1]} for k, v in rules.items()},
                "counts": self.counts,
                "subjects": sorted(set("%s: %s" % (o[0], o[1]) for o in self.obls))[:400],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
            "undecided": [{"rule": r, "construct": s, "detail": d[:2000]} for r, s, d, _ in open_],
            "violations": [{"rule": r, "construct": s, "detail": d[:2000]} for r, s, d, _ in bad],
            "assumptions": ASSUMPTIONS,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for r, s, d, k in open_[:10]:
            print("UNDECIDED: [%s] %s: %s" % (r, s, d.strip().split("\n")[-1][:300]))
        for r, s, d, k in bad[:20]:
            print("  [%s] %s: %s" % (r, s, d.split("\n")[0][:300]))
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s obligations=%d wall=%.1fs" % (self.pid, n, time.time() - self.t0))
        return 0


ASSUMPTIONS = [
    "rustc's MIR for the nightly toolchain in the sandbox is what is compiled",
    "core/alloc/smallvec/relative-path functions behave as documented (analysis/models.py)",
]


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    return {e["key"]: e["what"] for e in json.load(open(p))["findings"] if e["property"] == pid and not e.get("fixed")}
