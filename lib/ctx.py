"""Results of a check: coverage counts, violations, known findings, the evidence file."""
import json, os, subprocess, sys, time
from build import VERIF, left_out, scratch

LEVELS = {"C15": "fault_enumeration"}


class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0        # distinct objects or states examined
        self.transitions = 0   # operations of the program executed and compared
        self.traces = 0        # executions of the real program compared with the reference
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known_seen = {}
        self.known = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                if line.strip():
                    e = json.loads(line)
                    if e["property"] == pid and e["status"] == "known":
                        self.known[e["key"]] = e

    def violation(self, key, msg, **data):
        """key identifies the failing input, call site or history"""
        if key in self.known:
            self.known_seen[key] = msg
            return
        self.viol.append(dict(key=key, msg=msg, **data))

    def check(self, ok, key, msg, **data):
        if not ok:
            self.violation(key, msg() if callable(msg) else msg, **data)
        return ok

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def harness(self, binary, env=None):
        """Runs the harness compiled into the program and takes in its results"""
        timeout = 10000 if self.thorough else 800
        out = os.path.join(scratch(), "harness.out")
        wd = os.path.join(scratch(), "harness_wd")
        os.makedirs(wd, exist_ok=True)
        e = dict(os.environ, VERIF_OUT=out, VERIF_TIER=self.tier, **(env or {}))
        if os.path.exists(out):
            os.remove(out)
        to = False
        with open(os.path.join(scratch(), "harness.err"), "w+") as err:
            try:
                p = subprocess.run([binary], env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=err, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc, to = None, True
            err.seek(0)
            tail = err.read()[-1500:]
        done = False
        for line in open(out) if os.path.exists(out) else []:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["k"] == "violation":
                self.violation(d["key"], d["msg"])
            elif d["k"] == "sample":
                self.sample(d["s"], 24)
            elif d["k"] == "count":
                if d["name"] == "states":
                    self.states += d["n"]
                elif d["name"] == "transitions":
                    self.transitions += d["n"]
                elif d["name"] == "traces":
                    self.traces += d["n"]
                else:
                    self.count(d["name"], d["n"])
            elif d["k"] == "done":
                done = True
        if to:
            self.violation("no-termination", "the explored calls did not finish in %d s" % timeout)
        elif not done:
            self.violation("crash", "the program crashed (status %s) during the exploration: %s" % (rc, tail))

    def finish(self):
        ev = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        rd = os.path.join(ev, "replays")
        os.makedirs(rd, exist_ok=True)
        # one violation per key
        seen, viol = set(), []
        for v in self.viol:
            if v["key"] not in seen:
                seen.add(v["key"])
                viol.append(v)
        cov = dict(self.extra)
        level = LEVELS.get(self.id, "model_checking")
        if level == "fault_enumeration":
            cov["evaluations"] = self.transitions
            cov["distinct_nontrivial"] = self.states
        else:
            cov["states"] = self.states
            cov["transitions"] = self.transitions
            # where the program itself is explored, each call compared with the reference is such a trace
            cov["traces_validated_against_impl"] = self.traces or self.transitions
        cov["samples"] = self.samples
        if left_out:
            cov["left_out"] = left_out
        doc = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        with open(os.path.join(ev, self.id + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for k, msg in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, self.known[k]["what"]))
        if viol:
            p = os.path.join(rd, self.id + ".json")
            with open(p, "w") as f:
                json.dump(viol[:50], f, indent=1, default=str)
            for v in viol[:5]:
                print("%s: %s: %s" % (self.id, v["key"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.id, os.path.relpath(p, VERIF)))
            return 1
        print("%s: held on everything explored: %d states, %d transitions, %d traces (%s, %.1f s)" % (
            self.id, self.states, self.transitions, self.traces, self.tier, time.time() - self.t0))
        return 0
