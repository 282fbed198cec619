"""Verdict, evidence and known-finding handling shared by every check."""
import json, os, sys, time, traceback
from . import build

VERIF = build.VERIF


class Report:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.rules = []
        self.known_hit = []

    # ---- coverage -------------------------------------------------------
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 25:
            self.samples.append(s)

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def undecided(self, what):
        """a path analysis that gave up: neither a violation nor a proof, reported in the evidence"""
        self.count("undecided")
        self.open_ = getattr(self, "open_", [])
        if len(self.open_) < 25:
            self.open_.append(what)

    def need(self, name, minimum):
        """Anchor test: a rule that matches fewer instances than confirmed by hand
        has lost its anchors; that is an analysis error, never a verdict."""
        if self.cov.get(name, 0) < minimum and not self.viol:
            raise build.AnalysisError("%s: only %d instances of '%s' found, expected at least %d"
                                      % (self.pid, self.cov.get(name, 0), name, minimum))

    # ---- verdict ---------------------------------------------------------
    def violation(self, key, text):
        """key: stable identification of the construct (function + construct)."""
        for k, _ in self.viol:
            if k == key:
                return
        self.viol.append((key, text))

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = load_known(self.pid)
        new = []
        for k, t in self.viol:
            if k in known:
                self.known_hit.append((k, t))
            else:
                new.append((k, t))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["rules"] = self.rules
        cov["samples"] = self.samples
        if getattr(self, "open_", None):
            cov["undecided_paths"] = self.open_
        if self.level == "other":
            cov.setdefault("explanation", "Static analysis of the SSA form of the current tree: " + " ".join(self.rules))
        ev = {"property": self.pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        if self.known_hit:
            ev["coverage"]["known_findings"] = [k for k, _ in self.known_hit]
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, t in self.known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, t))
        nums = ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, int))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("[%s] %s\n" % (k, t))
            for k, t in new:
                print("  %s: [%s] %s" % (self.pid, k, t))
            print("%s: %d violation(s); analysed %s" % (self.pid, len(new), nums))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: holds on everything analysed: %s (%.1fs)" % (self.pid, nums, time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == pid}


def main(pid, func):
    try:
        return func()
    except build.AnalysisError as e:
        print("%s: ANALYSIS ERROR: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("%s: ANALYSIS ERROR (internal)" % pid)
        return 4
