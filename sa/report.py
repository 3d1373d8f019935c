"""Findings and evidence of one run."""
import json, os, time, hashlib, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "mpopt", "mpopt.py")


class Finding:
    """one broken obligation: rule + construct identify it"""

    def __init__(self, prop, rule, construct, detail):
        self.prop, self.rule, self.construct, self.detail = prop, rule, construct, detail

    def key(self):
        return "%s|%s|%s" % (self.prop, self.rule, self.construct)

    def as_dict(self):
        return {"property": self.prop, "rule": self.rule, "construct": self.construct, "detail": self.detail}


class Report:
    def __init__(self):
        self.findings = []
        self.obligations = {}     # description -> count
        self.undecided = []
        self.analysed = set()     # functions
        self.rules = []
        self.extra = {}

    def add(self, prop, rule, construct, detail):
        f = Finding(prop, rule, construct, detail)
        if not any(x.key() == f.key() for x in self.findings):
            self.findings.append(f)

    def ob(self, what, n=1):
        self.obligations[what] = self.obligations.get(what, 0) + n

    def undec(self, what, why):
        s = "%s: %s" % (what, str(why)[:300])
        if s not in self.undecided:
            self.undecided.append(s)

    def merge(self, o):
        for f in o.findings:
            if not any(x.key() == f.key() for x in self.findings):
                self.findings.append(f)
        for k, v in o.obligations.items():
            self.ob(k, v)
        for u in o.undecided:
            if u not in self.undecided:
                self.undecided.append(u)
        self.analysed |= o.analysed
        for r in o.rules:
            if r not in self.rules:
                self.rules.append(r)
        for k, v in o.extra.items():
            self.extra.setdefault(k, v)


START = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "780"))     # a check that gives no answer in time is no check


def pmap(fn, jobs, rep, n=8):
    """results of fn on the jobs, by n processes; what is not there in time is undecided"""
    import multiprocessing as mp
    jobs = list(jobs)
    limit = LIMIT if os.environ.get("VERIF_TIER", "quick") == "quick" else LIMIT * 20
    with mp.Pool(max(1, min(n, len(jobs)))) as pool:
        it = pool.imap_unordered(fn, jobs, chunksize=1)
        for k in range(len(jobs)):
            try:
                yield it.next(max(1.0, START + limit - time.time()))
            except mp.TimeoutError:
                rep.undec("time limit", "%d of %d pieces not finished" % (len(jobs) - k, len(jobs)))
                pool.terminate()
                return


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                out.append(line[len("finding: "):])
    return out


def finish(prop, rep, tier, seed, t0, explanation):
    """print the verdict, write the evidence; returns the exit code"""
    known = known_findings()
    bad, old = [], []
    for f in rep.findings:
        if f.prop != prop:
            continue
        (old if f.key() in [k.split(" :: ")[0] for k in known] else bad).append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": explanation,
              "source": SRC, "source_sha256": hashlib.sha256(open(SRC, "rb").read()).hexdigest(),
              "rules": rep.rules,
              "functions_analysed": sorted(rep.analysed),
              "functions_analysed_count": len(rep.analysed),
              "obligations": rep.obligations,
              "obligations_total": sum(rep.obligations.values()),
              "undecided": rep.undecided[:60], "undecided_count": len(rep.undecided),
              "known_findings_seen": [f.key() for f in old],
              "violations": [f.as_dict() for f in bad]},
          "wall_s": round(time.time() - t0, 3)}
    ev["coverage"].update(rep.extra)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, f.rule, f.construct, f.detail))
    if bad:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
        with open(rp, "w") as fh:
            json.dump([f.as_dict() for f in bad], fh, indent=1, default=str)
        for f in bad[:20]:
            print("  %s at %s: %s" % (f.rule, f.construct, f.detail))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d undecided=%d" % (
        prop, sum(rep.obligations.values()), len(rep.analysed), len(rep.undecided)))
    return 0
