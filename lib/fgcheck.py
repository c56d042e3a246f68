"""Book-keeping of a check: cases, violations, known findings, evidence, verdict."""
import collections
import json
import os
import re
import shutil
import sys
import time
import traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORTED = 12


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


class Enough(Exception):
    """violations were found and a good part of the time of a quick check is used up"""


class Check:
    def __init__(self, pid, level="exploration"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = np.random.default_rng([self.seed, int(re.sub(r"\D", "", pid))])
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = collections.Counter()
        self.maxima = {}
        self.rule = ""
        self.assumptions = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.known = self._load_known()

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("#") and not l.startswith("fixed:"):
                    d = json.loads(l)
                    if d["property"] == self.id and d.get("status", "known") == "known":
                        out.append(d)
        return out

    def sub_rng(self, *k):
        return np.random.default_rng([self.seed, int(re.sub(r"\D", "", self.id))] +
                                     [int(x) for x in k])

    # --- observations -------------------------------------------------------------------
    def case(self, key=None, sample=None, nontrivial=True, n=1):
        self.evals += n
        if key is not None and nontrivial:
            self.distinct.add(key if isinstance(key, (str, int, tuple)) else repr(key))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(jsonable(sample))

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def maximum(self, name, val):
        if val is None or not np.isfinite(val):
            return
        self.maxima[name] = max(self.maxima.get(name, -np.inf), float(val))

    # --- verdicts -----------------------------------------------------------------------
    def fail(self, key, msg, result=None, files=None):
        """key: stable identifier of the failing input or call site (matched against the
        known findings); msg: what was observed."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(key, (k, msg))
                return
        self.violations.append((key, msg))
        n = len(self.violations)
        if n > MAX_REPORTED:
            self.enough()
            return
        d = os.path.join(VERIF, "evidence", "replay", self.id, "%02d" % n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "violation.txt"), "w") as f:
            f.write("property %s\ncase %s\nseed %d tier %s\n%s\n" % (self.id, key, self.seed,
                                                                    self.tier, msg))
            if result is not None:
                f.write("command: %s\nexit: %s\n--- stderr\n%s\n--- stdout (end)\n%s\n" % (
                    " ".join(getattr(result, "argv", [])), getattr(result, "rc", None),
                    getattr(result, "err", "")[-4000:], getattr(result, "out", "")[-4000:]))
        if result is not None and getattr(result, "text", None):
            with open(os.path.join(d, "settings.yml"), "w") as f:
                f.write(result.text)
        for name, content in (files or {}).items():
            p = os.path.join(d, name)
            if hasattr(content, "write") and hasattr(content, "nodes"):
                content.write(p)
            else:
                with open(p, "w") as f:
                    f.write(content if isinstance(content, str) else json.dumps(
                        jsonable(content)))
        print("VIOLATION property=%s replay=%s" % (self.id, d))
        print("  [%s] %s" % (key, msg[:600]))
        sys.stdout.flush()
        self.enough()

    def enough(self):
        if not self.thorough and time.time() - self.t0 > 300:
            raise Enough()

    def ensure(self, cond, key, msg, result=None, files=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, result, files)
        return bool(cond)

    # --- end ----------------------------------------------------------------------------
    def evidence(self):
        cov = {"evaluations": int(self.evals), "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        if self.counts:
            cov["observed"] = {k: int(v) for k, v in sorted(self.counts.items())}
        if self.maxima:
            cov["largest_deviation_seen"] = {k: jsonable(v) for k, v in
                                             sorted(self.maxima.items())}
        if self.known_hit:
            cov["known_findings_seen"] = list(self.known_hit)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.id + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)

    def finish(self):
        for key, (k, msg) in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.id, k["what"], key))
        self.evidence()
        if self.violations:
            print("%s: %d violation(s) in %d evaluations, %.0f s" % (
                self.id, len(self.violations), self.evals, time.time() - self.t0))
            return 1
        print("%s: held on %d evaluations (%d distinct), %.0f s; %s" % (
            self.id, self.evals, len(self.distinct), time.time() - self.t0, dict(self.counts)))
        return 0
