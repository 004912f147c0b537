"""Schedules of two commands that run at the same time in one directory, on the real scripts and binary.

The first command runs under fault/faultrun.c, which lists the operations at which its processes touch files of the
searches or start programs. For each of them the first command runs up to that operation, then waits while the second one
runs from start to end, and then goes on: all schedules with one preemption. What is left must be what the two commands
leave when one runs after the other."""
from build import *
from pipe import *


def tracer():
    out = os.path.join(scratch(), "faultrun")
    if not os.path.exists(out):
        r = subprocess.run(["gcc", "-O1", "-o", out, VERIF + "/fault/faultrun.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("faultrun does not build: " + r.stdout[-1000:])
    return out


def text(c):
    return c if isinstance(c, str) else " ".join(c)


class Schedules:
    def __init__(self, ctx, binary, name, before, first, second, after, content, differ=None, every=False):
        """before, after: commands that run before and after both; content(directory): what is compared (a dictionary);
        differ(a, b): the entries that differ; every: also between operations on pipes and between reads"""
        self.ctx, self.binary, self.name, self.fr = ctx, binary, name, tracer()
        self.first, self.second, self.after, self.content, self.every = first, second, list(after), content, every
        self.differ = differ or (lambda a, b: [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)])
        self.base = os.path.join(scratch(), "sched-" + name)
        d = rundir(binary, "sched-%s-base" % name)
        self.ok = True
        for c in before:
            self.do(d, c)
        os.makedirs(self.base)
        for x in ("results", "tmp"):
            if os.path.isdir(d + "/" + x):
                shutil.copytree(d + "/" + x, self.base + "/" + x)
        # one after the other, both ways
        self.want = []
        for cmds in ([first, second], [second, first]):
            e = self.start("seq%d" % len(self.want))
            for c in cmds + self.after:
                self.do(e, c)
            self.want.append(content(e))
            shutil.rmtree(e)
        shutil.rmtree(d)

    def do(self, d, c):
        rc, out = sh(d, c)
        if rc:
            self.ok = False
            self.ctx.violation("undisturbed %s" % self.name, "%s: %s gives status %d: %s" % (self.name, text(c), rc, out[-300:]))

    def start(self, tag):
        d = rundir(self.binary, "sched%d%s" % (os.getpid(), tag))
        for x in os.listdir(self.base):
            shutil.copytree(self.base + "/" + x, d + "/" + x)
        return d

    def traced(self, d, point):
        pts = d + "/bin/points"
        a = ["bash", "-c", self.first] if isinstance(self.first, str) else self.first
        o2 = "(%s) > bin/out2 2>&1 < /dev/null; echo $? > bin/status2" % text(self.second)
        with open(d + "/bin/out", "wb") as o:
            rc = subprocess.run([self.fr, d, pts, "200", "other" if point else "none", point or "-", "--"] + a, cwd=d,
                                env=env(d, FAULTRUN_OTHER="cd %s; %s" % (d, o2)), stdin=subprocess.DEVNULL, stdout=o, stderr=o).returncode
        return rc, lines(pts) or []

    def points(self):
        pts = {}
        for i in range(2):
            d = self.start("p")
            rc, l = self.traced(d, None)
            shutil.rmtree(d)
            for p in l:
                lab, prog, op, obj, k = p.split("\t")
                if (obj == "pipe" or op == "read" or op == "fork" or prog == "tee" or obj.endswith("result.log")) and not self.every:
                    continue
                if not (prog == "tee" and int(k) > 2):
                    pts[p] = 1
        return list(pts)

    def one(self, point):
        """(reached, complaint)"""
        for attempt in range(3):
            d = self.start("")
            try:
                rc, l = self.traced(d, point)
                if not (l and l[-1] == "reached") and attempt < 2:
                    continue
                if not (l and l[-1] == "reached"):
                    return False, None
                s2 = (read(d + "/bin/status2") or "none").strip()
                if rc == 124:
                    return True, "they do not end"
                if rc or s2 != "0":
                    return True, "statuses %s and %s, one after the other both succeed: %s" % (rc, s2, (read(d + "/bin/out") or "")[-200:] + (read(d + "/bin/out2") or "")[-200:])
                for c in self.after:
                    r, out = sh(d, c, timeout=120)
                    if r:
                        return True, "%s then gives status %d: %s" % (text(c), r, out[-200:])
                got = self.content(d)
                bad = min((self.differ(got, w) for w in self.want), key=len)
                if bad:
                    return True, "%s: not as after running one after the other" % bad[:4]
                return True, None
            finally:
                shutil.rmtree(d)

    def run(self):
        if not self.ok:
            return
        pts = self.points()
        n = 0
        for p, (reached, bad) in zip(pts, forked(self.one, [(p,) for p in pts])):
            at = p.replace("\t", " ")
            n += reached
            self.ctx.traces += reached
            self.ctx.transitions += reached
            if bad:
                self.ctx.violation("schedule %s %s" % (self.name, at), "%s: [%s] waits at [%s] while [%s] runs: %s" % (self.name, text(self.first), at, text(self.second), bad))
        self.ctx.states += n
        self.ctx.extra.setdefault("schedules", {})[self.name] = dict(points=len(pts), schedules=n)
        self.ctx.sample("%s: %d schedules of [%s] with [%s] in between" % (self.name, n, text(self.first), text(self.second)), 24)
        if n < 3:
            self.ctx.violation("vacuous schedules " + self.name, "only %d schedules" % n)
        shutil.rmtree(self.base)
