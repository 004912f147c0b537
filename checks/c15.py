"""C15: every fault point of a search, with every kind of fault, on the real scripts and binary.

fault/faultrun.c runs a script under ptrace and lists its fault points: reads, writes, creations, listings, renames and
removals of files of the search, reads and writes of the pipes between its processes, and the creation and execution of
processes. Each point is then made to fail in a run of its own."""
import hashlib
from build import *
from pipe import *
from c16 import tree, same, RESULTS, R

MUTATE = ("write", "create", "rename", "unlink", "mkdir")
TERMINAL = ("tee", "bc", "date", "wc")          # programs that only affect the log


def tracer():
    out = os.path.join(scratch(), "faultrun")
    r = subprocess.run(["gcc", "-O1", "-o", out, VERIF + "/fault/faultrun.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("faultrun does not build: " + r.stdout[-1000:])
    return out


def actions(point, kth):
    lab, prog, op, obj, k = point.split("\t")
    a = ["error"]
    file = obj.startswith(("results", "tmp"))
    if op in ("read", "write"):
        a.append("short")
    if op in MUTATE and file and not (obj.endswith("result.log")):
        a += ["kill", "crash"]
        if op == "write":
            a += ["torn", "torncrash"]
    elif op in ("exec", "open", "list"):
        a.append("kill")
    elif op == "write":
        a.append("kill")
    return a


class Case:
    """A script run from a given state; the same faults, the same questions"""
    def __init__(self, ctx, binary, fr, name, t, n, cmd, before=(), rest=(), produces=RESULTS, spoil=False):
        self.ctx, self.binary, self.fr, self.name, self.t, self.n = ctx, binary, fr, name, t, n
        self.cmd, self.rest, self.produces = cmd, list(rest), produces
        self.base = os.path.join(scratch(), "c15-" + name)
        os.makedirs(self.base + "/results")
        d = rundir(binary)
        for c in before:
            rc, out = sh(d, c)
            if rc:
                raise Broken("%s fails: %s" % (" ".join(c), out[-300:]))
        if spoil:
            # as an earlier search left it that was interrupted: incomplete results and pair files
            for p, _, fs in os.walk(d + "/results"):
                for f in fs:
                    with open(os.path.join(p, f), "rb+") as g:
                        g.truncate(os.path.getsize(os.path.join(p, f)) // 2)
        shutil.rmtree(self.base)
        os.makedirs(self.base)
        for x in ("results", "tmp"):
            if os.path.isdir(d + "/" + x):
                shutil.move(d + "/" + x, self.base + "/" + x)
        shutil.rmtree(d)
        d = rundir(binary)
        rc, out = driver(d, t, n, had=True)
        if rc:
            raise Broken("an undisturbed search of %s-%d fails: %s" % (t, n, out[-300:]))
        self.want = self.results(d)
        shutil.rmtree(d)

    def results(self, d):
        tr, _ = tree(d)
        return {x: tr.get("pairs/%s/find_%d/%s" % (self.t, self.n, x)) for x in RESULTS}

    def written(self, d):
        """The lists of sequences and pairs, up to the order of their lines"""
        tr, _ = tree(d)
        return {x: sorted(v.split(b"\n")) for x, v in tr.items() if x.endswith((".seq", ".pair", ".sorted"))}

    def start(self, tag):
        d = rundir(self.binary, "f%d%s" % (os.getpid(), tag))
        for x in os.listdir(self.base):
            shutil.copytree(self.base + "/" + x, d + "/" + x)
        return d

    def traced(self, d, action, point):
        pts = d + "/bin/points"
        with open(d + "/bin/out", "wb") as o:
            rc = subprocess.run([self.fr, d, pts, "100", action, point, "--"] + self.cmd, cwd=d, env=env(d), stdin=subprocess.DEVNULL, stdout=o, stderr=o).returncode
        return rc, lines(pts) or []

    def points(self):
        """The union of the points of three runs: how a log is cut into reads and writes depends on the timing"""
        pts, seen = [], set()
        for i in range(3):
            d = self.start("")
            try:
                rc, l = self.traced(d, "none", "-")
                if rc:
                    raise Broken("%s: undisturbed run under the tracer: status %d: %s" % (self.name, rc, (read(d + "/bin/out") or "")[-300:]))
                if i == 0:
                    self.lists = self.written(d)
                self.good(d, rc)
            finally:
                shutil.rmtree(d)
            for p in l:
                lab, prog, op, obj, k = p.split("\t")
                if prog == "tee" and int(k) > 2:
                    continue
                if p not in seen:
                    seen.add(p)
                    pts.append(p)
        return pts

    def good(self, d, rc):
        """None, or what is wrong although the script reported success"""
        got = self.results(d)
        bad = [x for x in self.produces if not same(x, got[x], self.want[x])]
        if bad:
            return "status 0, but %s is not complete and correct: %s" % (bad[0], "missing" if got[bad[0]] is None else "%d bytes, expected %d" % (len(got[bad[0]]), len(self.want[bad[0]] or b"")))
        # what a step is there to write, and later steps rely on (a file that should have been removed does no harm)
        now = self.written(d)
        for x in sorted(self.lists):
            # a directory that could not be listed is left unsorted, and the join refuses it
            if now.get(x) != self.lists[x] and not (x.endswith(".sorted") and x not in now and x[:-7] in now):
                return "status 0, but %s is not what an undisturbed run writes" % x
        for c in self.rest:
            r, out = sh(d, c, timeout=120)
            if r:
                return None     # a later step refuses
        if self.rest:
            got = self.results(d)
            bad = [x for x in RESULTS if not same(x, got[x], self.want[x])]
            if bad:
                return "status 0, and the following steps succeed, but %s is not complete and correct" % bad[0]
        return None

    def inject(self, point, action):
        """(reached, status, complaint, digest of the state left behind)"""
        for attempt in range(3):
            d = self.start("")
            try:
                rc, l = self.traced(d, action, point)
                reached = bool(l) and l[-1] == "reached"
                if not reached and attempt < 2:
                    continue
                if rc == 124:
                    return reached, rc, "the script does not end", None
                tr, logs = tree(d)
                key = hashlib.sha256(repr((sorted((k, hashlib.sha256(v).digest()) for k, v in tr.items()))).encode()).hexdigest()
                if os.path.isdir(d + "/tmp"):
                    key += "".join(sorted(os.listdir(d + "/tmp")))
                keep = os.path.join(self.base + "-left", key)
                if not os.path.isdir(keep):
                    os.makedirs(self.base + "-left", exist_ok=True)
                    tmp = keep + ".%d" % os.getpid()
                    os.makedirs(tmp)
                    for x in ("results", "tmp"):
                        if os.path.isdir(d + "/" + x):
                            shutil.copytree(d + "/" + x, tmp + "/" + x)
                    try:
                        os.rename(tmp, keep)
                    except OSError:
                        shutil.rmtree(tmp)
                return reached, rc, self.good(d, rc) if rc == 0 else None, key
            finally:
                shutil.rmtree(d)

    def recover(self, key):
        """Reruns the search with -d from the state that a fault left behind"""
        d = rundir(self.binary, "g%d" % os.getpid())
        try:
            for x in os.listdir(os.path.join(self.base + "-left", key)):
                shutil.copytree(os.path.join(self.base + "-left", key, x), d + "/" + x)
            rc, out = driver(d, self.t, self.n, had=True, extra=["-d"], timeout=120)
            if rc:
                return "driver.sh -d gives status %d: %s" % (rc, out[-300:])
            got = self.results(d)
            bad = [x for x in RESULTS if not same(x, got[x], self.want[x])]
            if bad:
                return "driver.sh -d succeeds, but %s is not that of an undisturbed search" % bad[0]
        finally:
            shutil.rmtree(d)

    def run(self):
        ctx = self.ctx
        pts = self.points()
        jobs = [(p, a) for p in pts for a in actions(p, 0)]
        left, stat = {}, {}
        for (p, a), (reached, rc, bad, key) in zip(jobs, forked(self.inject, jobs)):
            at = p.replace("\t", " ")
            ctx.transitions += 1
            ctx.traces += 1
            if reached:
                ctx.states += 1
                what = "tolerated" if rc == 0 else "reported"
                stat[a + " " + what] = stat.get(a + " " + what, 0) + 1
            else:
                stat["not applicable"] = stat.get("not applicable", 0) + 1
            if bad:
                ctx.violation("fault %s %s %s" % (self.name, a, at), "%s, %s at [%s]: %s" % (self.name, a, at, bad))
            elif not reached and rc:
                ctx.violation("undisturbed %s" % self.name, "%s: status %d although nothing failed" % (self.name, rc))
            if key and key not in left:
                left[key] = (a, at)
        for (key, (a, at)), bad in zip(left.items(), forked(self.recover, [(k,) for k in left])):
            ctx.transitions += 1
            if bad:
                ctx.violation("rerun %s %s %s" % (self.name, a, at), "%s, after %s at [%s]: %s" % (self.name, a, at, bad))
        ctx.extra.setdefault("cases", {})[self.name] = dict(points=len(pts), runs=len(jobs), states_left_behind=len(left), **stat)
        ctx.sample("%s: %d fault points, %d runs, %d different states rerun with -d" % (self.name, len(pts), len(jobs), len(left)))
        if stat.get("error reported", 0) < 5:
            ctx.violation("vacuous " + self.name, "hardly any fault was reported: %s" % stat)
        shutil.rmtree(self.base)
        shutil.rmtree(self.base + "-left")


class Broken(Exception):
    pass


def cases(thorough):
    def staged(t, n, p="WZ"):
        a = [t, str(n)]
        l = [["./pairs.sh"] + a + ["-p", p], ["./sortpairs.sh"] + a, ["./join_pairs.sh"] + a, ["./convert_hm.sh"] + a, ["./convert_qhm.sh"] + a]
        for i, c in enumerate(l):
            prod = [(), (), RESULTS[:4], ("result.mat",), ("result.qhm",)][i]
            yield "%s-%s-%d" % (c[0][2:-3], t, n), t, n, c, l[:i], l[i + 1:], prod, False
    d = lambda t, n, *x: ["./driver.sh", t, str(n)] + list(x)
    yield "driver-wts-3", "wts", 3, d("wts", 3, "-h"), (), (), RESULTS, False
    yield "driver-d-qts-3", "qts", 3, d("qts", 3, "-d", "-h", "-p", "WX", "-c"), [d("qts", 3, "-h")], (), RESULTS, True
    yield from staged("ws", 7)
    if thorough:
        yield "driver-ws-7", "ws", 7, d("ws", 7, "-h"), (), (), RESULTS, False
        yield "driver-slurm-wts-4", "wts", 4, d("wts", 4, "-h", "-s"), (), (), RESULTS, False
        yield "driver-d-wts-7", "wts", 7, d("wts", 7, "-d", "-h"), [d("wts", 7, "-h", "-c", "-p", "WY")], (), RESULTS, True
        yield "driver-d-ws-9", "ws", 9, d("ws", 9, "-d", "-h"), [d("ws", 9, "-h")], (), RESULTS, True
        yield from staged("wts", 3, "WY")
        yield from staged("qts", 7, "WX")


def run(ctx):
    binary = build_program()
    build_reference()
    fr = tracer()
    for c in cases(ctx.thorough):
        try:
            Case(ctx, binary, fr, *c).run()
        except Broken as e:
            ctx.violation("undisturbed " + c[0], str(e))
    ctx.extra["exhaustive"] = True
