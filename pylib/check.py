"""check.py PROPERTY quick|thorough: decides one property on /repo's working tree."""
import collections
import json
import os
import re
import shutil
import sys
import time

import build
import gen
import models
import run

ROOT = build.ROOT
FINDINGS = ROOT + "/known_findings.txt"

# how many generated cases of which profiles a quick check of a property judges
PLAN = {
    "C01": [("C01", 500), ("C05", 100), ("C15", 100)], "C02": [("C02", 380)], "C03": [("C03", 1200)], "C04": [("C04", 800)],
    "C05": [("C05", 600)], "C06": [("C06", 600)], "C07": [("C07", 700)], "C08": [("C08", 700)],
    "C09": [("C09", 250)], "C10": [("C10", 900)], "C11": [("C11", 1200)], "C12": [("C12", 1500)],
    "C13": [("C13", 500)], "C14": [("C14", 1500)], "C15": [("C15", 900)], "C16": [("C16", 650)],
    "C17": [("C17", 600)], "C18": [("C18", 1500)], "C19": [("C19", 1000)], "C20": [("C20", 1500)],
    "C21": [("C21", 1200)], "C23": [("C23", 500)], "C22": [("C22", 1500)], "C24": [("C24", 1200)],
}


def findings(prop):
    """known findings of a property: (regex over 'case-script-digest op message', text)"""
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", ln.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []         # (case id, event, op, message, replay path)
        self.other = collections.Counter()
        self.cov = collections.Counter()
        self.ops = collections.Counter()
        self.samples = []
        self.unfinished = []
        self.known = collections.OrderedDict()
        self.vdir = os.path.join(build.BUILD, "violations")
        self.findings = findings(prop)
        self.models = []

    def violation(self, cid, l, op, msg, text):
        for rx, what in self.findings:
            if rx.search("%s %s" % (op, msg)):
                self.known[what] = True
                return
        os.makedirs(self.vdir, exist_ok=True)
        path = os.path.join(self.vdir, "%s-%s.txt" % (self.prop, re.sub(r"\W", "_", cid)))
        if len(self.violations) < 50:
            with open(path, "w") as f:
                f.write("# property %s, case %s, event %s (%s): %s\n%s\n" % (self.prop, cid, l, op, msg, text))
        self.violations.append((cid, l, op, msg, path))

    def traces(self, cases, timeout):
        """replays cases on the real code and judges the histories with TLC"""
        sd = run.scratch_dir()
        try:
            text = {}
            for c in cases:
                t = c.text()
                text[re.search(r'"id":"([^"]*)"', t).group(1)] = t
            lines = run.replay_all(self.exe, cases, sd)
            if len(lines) != len(cases):
                self.unfinished.append("%d of %d cases were replayed" % (len(lines), len(cases)))
            J = run.judge(lines, sd, timeout=timeout)
        finally:
            shutil.rmtree(sd, ignore_errors=True)
        own = set()
        for p, cid, l, op, msg in J.fails:
            if p == self.prop:
                own.add(cid)
                self.violation(cid, l, op, msg, text.get(cid, ""))
            else:
                self.other[(p, op, msg)] += 1
        for cid, l, err in J.errors:
            if re.search(r"StackOverflow|OutOfMemory", err):
                self.unfinished.append("TLC ran out of space on " + cid)
            else:
                self.violation(cid, l, "?", "the history is outside the specification: " + " ".join(err.split())[:300], text.get(cid, ""))
        if J.timeouts:
            self.unfinished.append("%d TLC runs did not finish in time" % J.timeouts)
        self.cov["states"] += J.states
        self.cov["transitions"] += J.generated - J.cases
        self.cov["traces_validated_against_impl"] += J.cases - len(own) - len(J.errors)
        self.cov["events"] += J.events
        self.cov["skipped_calls"] += J.skips
        for o, n in J.ops.items():
            self.ops[o] += n
        if len(self.samples) < 3:
            for x in lines[: 3 - len(self.samples)]:
                d = json.loads(x)
                self.samples.append({"case": d["id"], "script": text[d["id"]].splitlines()[1:13],
                                     "last_event": json.dumps(d["ev"][-1])[:400] if d["ev"] else ""})
        return J

    def model_cases(self, tier):
        """the exhaustive models; a model that breaks its own contract is a fault of the machinery"""
        sd = run.scratch_dir()
        try:
            cases = models.model_cases(self.prop, tier, self.seed, sd, self.models)
        except models.ModelBroken as e:
            raise run.Broken(str(e))
        finally:
            shutil.rmtree(sd, ignore_errors=True)
        for m in self.models:
            self.cov["states"] += m["states"]
            self.cov["transitions"] += m["transitions"]
        self.cov["model_behaviours_repeated"] += sum(m["behaviours"] for m in self.models)
        return cases

    def generated(self, k=1.0, round_=0, timeout=600, first=()):
        cases = list(first)
        for prof, n in PLAN[self.prop]:
            n = int(n * k)
            s = "%d" % self.seed if round_ == 0 else "%d.%d" % (self.seed, round_)
            cases += [gen.make(prof, s, i, self.tier) for i in range(n)]
        return self.traces(cases, timeout)

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples
        cov["events_by_operation"] = dict(sorted(self.ops.items()))
        if self.models:
            cov["models"] = self.models
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "violations": len(self.violations),
              "assumptions": ["libsdd, gmp and the C++ runtime behave as documented",
                              "numbers are compared within the tolerances of spec/Contract.tla"],
              "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open(ROOT + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s %s seed %d: %s in %.1f s" % (self.prop, self.tier, self.seed,
              ", ".join("%s %s" % (v, k) for k, v in sorted(self.cov.items())), time.time() - self.t0))
        for (p, op, msg), n in self.other.most_common(5):
            print("note: %d events break %s (%s: %s), which this check does not decide" % (n, p, op, msg))
        for w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for u in self.unfinished:
            print("unfinished: " + u)
        seen = set()
        for cid, l, op, msg, path in self.violations:
            if (op, msg) not in seen and len(seen) < 10:
                seen.add((op, msg))
                print("case %s event %s %s: %s" % (cid, l, op, msg))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][4]))
            return 1
        return 2 if self.unfinished else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(prop, tier, seed)
    try:
        ck.exe = build.ensure() + "/replay"
    except build.BuildError as e:
        print("cannot build:\n" + str(e)[-3000:])
        return 2
    try:
        if tier == "quick":
            ck.generated(timeout=500, first=ck.model_cases(tier))
        else:
            budget = float(os.environ.get("VERIF_BUDGET", "600"))
            r = 0
            first = ck.model_cases(tier)
            while True:
                t = time.time()
                ck.generated(2.0, r, timeout=1500, first=first)
                first = ()
                r += 1
                if ck.violations or time.time() - ck.t0 + (time.time() - t) > budget:
                    break
    except run.Broken as e:
        ck.unfinished.append(str(e)[-2000:])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
