"""C16: explicit-state exploration of the histories of commands, run on the real scripts.

A state is the content of the results directory (without the logs) together with what the history says about each
pair file. Every command is run on a copy of every reachable state; a state seen before is not explored again."""
import hashlib, re
from build import *
from pipe import *
from sched import Schedules

R = "./target/release/rust"
NAMES = {"WX": ("pair_WX", "pair_YZ"), "WY": ("pair_WY", "pair_XZ"), "WZ": ("pair_WZ", "pair_XY")}
RESULTS = ("result.seq", "result.qseq", "result-qts.seq", "result-qts.qseq", "result.mat", "result.qhm")


class Ghost:
    """What the history says about the pair files of one length: rowsum -> name -> the option it was generated with"""
    def __init__(self, pair=(), done=()):
        self.pair, self.done = dict(pair), dict(done)      # (rowsum, name) -> option ("empty" after create)

    def copy(self):
        return Ghost(self.pair, self.done)

    def key(self):
        return tuple(sorted(self.pair.items())), tuple(sorted(self.done.items()))

    def complete(self, rowsums):
        """All pairs of the length were generated with one matching option, and sorted; nothing else lies about"""
        if self.pair or not rowsums:
            return False
        if {r for r, _ in self.done} != set(rowsums):
            return False
        if len(set(self.done.values())) != 1 or "empty" in self.done.values():
            return False
        return all(tuple(sorted(n for q, n in self.done if q == r)) in [tuple(sorted(x)) for x in NAMES.values()] for r in rowsums)


class Cmd:
    """A command with its effect on the ghost, and what must hold when it succeeds"""
    def __init__(self, label, target, run, effect=None, produces=(), once=True):
        self.label, self.target, self.run, self.effect, self.produces, self.once = label, target, run, effect, produces, once


def commands(t, n, rowsums):
    """All commands for one type and length, by name"""
    tn = (t, n)
    a = [t, str(n)]

    def gen(m, p, rs=rowsums, ks=(0, 1)):
        def f(g):
            for r in rs:
                for k in ks:
                    g.pair[r, NAMES[p][k]] = m
        return f

    def clear(g):
        g.pair.clear()
        g.done.clear()

    def srt(g):
        g.done.update(g.pair)
        g.pair.clear()

    def seq(*fs):
        def f(g):
            for x in fs:
                x(g)
        return f
    c = {}

    def add(label, run, effect=None, produces=(), once=True):
        c[label] = Cmd("%s %s-%d" % (label, t, n), tn, run, effect, produces, once)
    full = ("result.seq", "result.qseq", "result.qhm") + (("result-qts.seq", "result-qts.qseq") if t == "wts" else ())
    for h in ("", "h"):
        for d in ("", "d"):
            for p, m in (("WZ", "psd"), ("WX", "correlation"), ("WY", "psd")):
                add("driver%s%s-%s-%s" % (d and "-d", h and "-h", p, m), ["./driver.sh"] + a + (["-h"] if h else []) + (["-d"] if d else []) + ["-p", p] + (["-c"] if m == "correlation" else []),
                    seq(*([clear] if d else []), gen(m, p), srt), full + (("result.mat",) if h else ()), once=bool(d))
    for d in ("", "d"):
        for p in NAMES:
            for m in MATCHES:
                add("pairs%s-%s-%s" % (d and "-d", p, m), ["./pairs.sh"] + a + (["-d"] if d else []) + ["-p", p] + (["-c"] if m == "correlation" else []),
                    seq(*([clear] if d else []), gen(m, p)), once=bool(d))
    for p in NAMES:
        for m in MATCHES:
            add("rust-pairs-%s-%s" % (p, m), [R, "pairs"] + a + [m, p], gen(m, p))
            for i, r in enumerate(rowsums):
                add("rowsum%d-%s-%s" % (i, p, m), [R, "pairs_rowsum"] + a + list(r) + [m, p], gen(m, p, [r]))
                for k in (1, 2):
                    add("single%d.%d-%s-%s" % (i, k, p, m), [R, "pair_single"] + a + list(r) + [m, p, str(k)], gen(m, p, [r], (k - 1,)))
        for i, r in enumerate(rowsums):
            add("create%d-%s" % (i, p), [R, "create"] + a + list(r) + [p], gen("empty", p, [r]))
    add("rowsums", [R, "rowsums"] + a)
    add("sort", ["./sortpairs.sh"] + a, srt)
    add("sort-slurm", "mkdir -p slurmtmp; SLURM_TMPDIR=slurmtmp ./sortpairs.sh %s %d -s" % tn, srt)
    add("sort-slurm-unset", "unset SLURM_TMPDIR; ./sortpairs.sh %s %d -s" % tn, srt)
    add("driver-d-slurm-WZ-psd", "unset SLURM_TMPDIR; ./driver.sh %s %d -d -s" % tn, seq(clear, gen("psd", "WZ"), srt), full)
    add("join", ["./join_pairs.sh"] + a, None, "join")
    add("rust-join", [R, "join"] + a, None, "join")
    add("hm", ["./convert_hm.sh"] + a, None, "hm")
    add("qhm", ["./convert_qhm.sh"] + a, None, "qhm")
    add("cleanup", ["./pair_file_cleanup.sh"] + a, clear)
    add("countpairs", ["./countpairs.sh"] + a)
    add("table", ["python3", "collect_results.py", str(n), str(n), t, "t"])
    add("qhm-all", [R, "qhm-all"] + a)
    if t == "qts":
        add("amicable", [R, "amicable", str(n)])
    return c


def norm(path, data):
    """Result files up to the order of their entries, which depends on the order of the directory entries"""
    if path.startswith(("result", "qhm_all")):
        return b"\n".join(sorted(data.split(b"\n")))
    return data


def tree(d):
    """Content of every file below results (logs apart)"""
    r, logs = {}, {}
    for p, ds, fs in os.walk(d + "/results"):
        for x in ds:
            r[os.path.relpath(os.path.join(p, x), d + "/results") + "/"] = b""
        for f in fs:
            with open(os.path.join(p, f), "rb") as g:
                data = g.read()
            rel = os.path.relpath(os.path.join(p, f), d + "/results")
            if f == "result.log":
                logs[rel] = data
            else:
                r[rel] = norm(f, data)
    return r, logs


def same(path, a, b):
    """The same results: of equivalent matrices, the one that is listed depends on the order of the sequences"""
    if a == b:
        return True
    if a is None or b is None or not path.endswith("result.mat") or a.count(b"\n") != b.count(b"\n"):
        return False
    ma, mb = parse_mat(a.decode()), parse_mat(b.decode())
    if None in ma or None in mb or len(ma) != len(mb):
        return False
    _, c = ref_hadamard([], ma + mb)
    return None not in c and sorted(c[:len(ma)]) == sorted(c[len(ma):])


def changed(a, b):
    """The files that differ"""
    return sorted(x for x in set(a) | set(b) if not same(x, a.get(x), b.get(x)))


def digest(tr, ghosts):
    h = hashlib.sha256()
    for k in sorted(tr):
        h.update(k.encode() + b"\0" + hashlib.sha256(tr[k]).digest())
    h.update(repr(sorted((t, g.key()) for t, g in ghosts.items())).encode())
    return h.hexdigest()


def decoys(d, targets):
    """Results of other lengths and types, which no command may touch"""
    for t, n in targets:
        for u, m in [(t, 10 * n), (t, 100 + n), ("wts", n), ("qts", n), ("ws", n)]:
            if (u, m) in targets:
                continue
            fd = fdir(d, u, m)
            os.makedirs(fd + "/rowsum_1_1_1_1", exist_ok=True)
            for f, x in (("result.seq", "+%d\n" % m), ("result.mat", "x\n"), ("rowsum_1_1_1_1/pair_WZ.pair", "2_1_\n1_1_\n"), ("rowsum_1_1_1_1/pair_XY.pair.sorted", "z\n")):
                with open(fd + "/" + f, "w") as g:
                    g.write(x + u)


class Explorer:
    def __init__(self, ctx, binary, name, targets, labels, depth, limit, hm=True):
        self.ctx, self.name, self.depth, self.limit = ctx, name, depth, limit
        self.binary, self.targets = binary, targets
        self.dir = os.path.join(scratch(), "c16-" + name)
        os.makedirs(self.dir)
        self.base, self.rowsums, self.cmds = {}, {}, []
        for tn in targets:
            self.baseline(tn)
            all_ = commands(*tn, self.rowsums[tn])
            for l in labels:
                # a label with # stands for all the rowsums
                for x in ([l.replace("#", str(i)) for i in range(len(self.rowsums[tn]))] if "#" in l else [l]):
                    if x in all_:
                        self.cmds.append(all_[x])

    def baseline(self, tn):
        """The results of a fresh search and the rowsums of the length"""
        d = rundir(self.binary)
        rc, out = driver(d, *tn, had=True)
        if rc:
            raise Fresh("fresh search of %s-%d fails: %s" % (tn + (out[-300:],)))
        tr, _ = tree(d)
        pre = "pairs/%s/find_%d/" % tn
        self.base[tn] = {x: tr.get(pre + x) for x in RESULTS}
        self.rowsums[tn] = sorted(tuple(k[len(pre) + 7:-1].split("_")) for k in tr if k.startswith(pre + "rowsum_") and k.endswith("/"))
        shutil.rmtree(d)

    def save(self, d, st):
        try:
            os.rename(d + "/results", os.path.join(self.dir, st))
        except OSError:
            if not os.path.isdir(os.path.join(self.dir, st)):
                raise

    def run(self):
        ctx = self.ctx
        d = rundir(self.binary)
        os.makedirs(d + "/results/pairs")
        decoys(d, self.targets)
        tr, logs = tree(d)
        gh = {tn: Ghost() for tn in self.targets}
        s0 = digest(tr, gh)
        self.save(d, s0)
        shutil.rmtree(d)
        seen = {s0: (gh, ())}
        level, depth = [s0], 0
        bad, trans, refused, joins = [], 0, 0, 0
        self.fixpoint = False
        while level and depth < self.depth and not len(bad) > 40:
            if len(seen) > self.limit:
                break
            jobs = [(s, c) for s in level for c in range(len(self.cmds))]
            nxt = []
            for (s, c), (st, gh, v, rf, jn) in zip(jobs, forked(self.step, [(s, c) + seen[s] for s, c in jobs])):
                trans += 1
                refused += rf
                joins += jn
                bad += v
                if st and st not in seen:
                    seen[st] = (gh, seen[s][1] + (self.cmds[c].label,))
                    nxt.append(st)
            for s in level:
                shutil.rmtree(os.path.join(self.dir, s))
            level, depth = nxt, depth + 1
        self.fixpoint = not level
        shutil.rmtree(self.dir)
        for k, m in bad:
            ctx.violation(k, m)
        ctx.states += len(seen)
        ctx.transitions += trans
        ctx.traces += trans
        ctx.count("refused", refused)
        ctx.count("joins_of_complete_pairs", joins)
        ctx.extra.setdefault("explorations", {})[self.name] = dict(
            commands=len(self.cmds), states=len(seen), transitions=trans, depth=depth, fixpoint=self.fixpoint, refused=refused, complete_joins=joins)
        longest = max(seen.values(), key=lambda x: len(x[1]))[1]
        ctx.sample("%s: %d states, %d transitions, a shortest history of the deepest state: %s" % (self.name, len(seen), trans, " ; ".join(longest)))
        if not joins and not bad:
            ctx.violation("vacuous " + self.name, "no join of complete pairs was explored")

    def step(self, s, c, ghosts, hist):
        c = self.cmds[c]
        d = rundir(self.binary, "s%d" % os.getpid())
        try:
            shutil.copytree(os.path.join(self.dir, s), d + "/results", symlinks=True)
            before, lb = tree(d)
            rc, out = sh(d, c.run, timeout=120)
            after, la = tree(d)
            h = " ; ".join(hist + (c.label,))
            bad = []
            pre = "pairs/%s/find_%d/" % c.target

            def flag(kind, msg):
                bad.append(("%s %s" % (kind, h), msg))
            # other lengths and types: neither files nor logs change
            for x in set(before) | set(after):
                if not x.startswith(pre) and before.get(x) != after.get(x) and not pre.startswith(x):
                    flag("other-length", "after %s: %s changed" % (h, x))
            for x in set(lb) | set(la):
                if not x.startswith(pre) and lb.get(x) != la.get(x):
                    flag("other-length", "after %s: %s changed" % (h, x))
            res = {x: after.get(pre + x) for x in RESULTS}
            old = {x: before.get(pre + x) for x in RESULTS}
            gh = {k: g.copy() for k, g in ghosts.items()}
            g = gh[c.target]
            jn = 0
            if rc:
                if rc < 0:
                    flag("hangs", "%s: %s" % (h, out[-200:]))
                if not out.strip() and not la.get(pre + "result.log", b"")[len(lb.get(pre + "result.log", b"")):].strip():
                    flag("silent", "%s: status %d without a message" % (h, rc))
                if res != old:
                    flag("refused-changes", "%s: status %d, but it changed %s" % (h, rc, [x for x in RESULTS if res[x] != old[x]]))
                # a refused command may have removed pair files on request (-d) or left some behind; go on only from unchanged files
                if after != before:
                    return None, None, bad, 1, 0
                return None, None, bad, 1, 0
            complete = g.complete(self.rowsums[c.target])
            want = self.base[c.target]
            if c.effect:
                c.effect(g)
            if isinstance(c.produces, tuple):
                for x in c.produces:
                    if not same(x, res[x], want[x]):
                        flag("result", "%s: %s is not that of a fresh search (%s)" % (h, x, diff(res[x], want[x])))
                if c.produces:
                    jn = 1
            elif c.produces == "join" and complete:
                jn = 1
                for x in RESULTS[:4]:
                    if not same(x, res[x], want[x]):
                        flag("join", "%s: %s is not that of a fresh search (%s)" % (h, x, diff(res[x], want[x])))
            elif c.produces in ("hm", "qhm"):
                src = "result-qts.seq" if c.target[0] == "wts" and c.produces == "hm" else "result.seq"
                x = "result.mat" if c.produces == "hm" else "result.qhm"
                if res[src] == want[src] and not same(x, res[x], want[x]):
                    flag("conversion", "%s: %s is not that of a fresh search (%s)" % (h, x, diff(res[x], want[x])))
            # results that a command does not produce stay as they are
            may = set(c.produces) if isinstance(c.produces, tuple) else {"join": set(RESULTS[:4]), "hm": {"result.mat"}, "qhm": {"result.qhm"}}[c.produces]
            for x in RESULTS:
                if x not in may and res[x] != old[x]:
                    flag("side-effect", "%s: %s changed (%s)" % (h, x, diff(res[x], old[x])))
            if c.effect is None and c.produces != "join":
                for x in set(before) | set(after):
                    if "/rowsum_" in x and before.get(x) != after.get(x):
                        flag("pair-files", "%s: %s changed" % (h, x))
            # repeating a successful step changes nothing
            if c.once:
                rc2, out2 = sh(d, c.run, timeout=120)
                again, _ = tree(d)
                if rc2:
                    if not (c.label.startswith("driver") or c.label.startswith("pairs")):
                        flag("repeat", "%s: repeating the last command gives status %d: %s" % (h, rc2, out2[-200:]))
                    if changed({x: again.get(pre + x) for x in RESULTS}, res):
                        flag("repeat", "%s: repeating the last command fails and changes the results" % h)
                elif changed(again, after):
                    flag("repeat", "%s: repeating the last command changes %s" % (h, changed(again, after)[:3]))
                after = again
            st = digest(after, gh)
            self.save(d, st)
            return st, gh, bad, 0, jn
        finally:
            shutil.rmtree(d)


class Fresh(Exception):
    pass


def diff(a, b):
    if a is None or b is None:
        return "missing" if a is None else "should not exist"
    return "%d lines, expected %d" % (a.count(b"\n"), b.count(b"\n"))


SCRIPTS_ = ["driver-WZ-psd", "driver-h-WX-correlation", "driver-d-WY-psd", "driver-d-h-WX-correlation", "pairs-WZ-psd", "pairs-d-WX-correlation",
           "sort", "sort-slurm-unset", "driver-d-slurm-WZ-psd", "join", "hm", "qhm", "cleanup", "countpairs"]
STAGED = ["create#-WZ", "rust-pairs-WZ-psd", "rowsum#-WZ-psd", "single#.1-WZ-psd", "single#.2-WZ-psd", "sort", "rust-join", "hm", "qhm", "cleanup",
          "driver-WZ-psd", "driver-d-h-WZ-psd"]
MIXED = ["single#.1-WZ-psd", "single#.2-WZ-psd", "single#.1-WX-psd", "single#.2-WX-psd", "single#.1-WX-correlation", "single#.2-WX-correlation",
         "create#-WX", "rowsums", "sort-slurm", "join", "qhm", "cleanup", "pairs-WY-correlation", "rowsum#-WY-correlation", "driver-d-WY-psd"]
TWO = ["pairs-d-WX-correlation", "sort", "join", "hm", "qhm", "cleanup", "driver-d-h-WZ-psd"]
READERS = ["driver-d-h-WZ-psd", "countpairs", "table", "qhm-all", "amicable", "cleanup", "sort", "rust-join", "hm", "qhm"]


def run(ctx):
    binary = build_program()
    build_reference()
    T = ctx.thorough
    ex = []
    # everything reachable with the scripts
    for tn in ([("wts", 6), ("qts", 5), ("ws", 7)] if not T else [("wts", 1), ("wts", 2), ("wts", 6), ("wts", 7), ("qts", 2), ("qts", 5), ("qts", 6), ("ws", 7), ("ws", 9), ("ws", 1)]):
        ex.append(("scripts-%s-%d" % tn, [tn], SCRIPTS_, 40, 4000))
    # the single-step commands of the staged search
    for tn in ([("wts", 3)] if not T else [("wts", 3), ("qts", 4), ("ws", 5), ("wts", 1)]):
        ex.append(("staged-%s-%d" % tn, [tn], STAGED, 40 if T else 6, 5000))
    # the same with two rowsums
    for tn in ([("ws", 7)] if not T else [("ws", 7), ("qts", 7), ("wts", 7)]):
        ex.append(("rowsums-%s-%d" % tn, [tn], ["rowsum#-WZ-psd", "single#.1-WZ-psd", "single#.2-WZ-psd", "sort", "rust-join", "qhm", "cleanup", "rust-pairs-WZ-psd"], 6 if T else 4, 6000))
    # different pairings and matching options in one directory
    for tn in ([("qts", 3)] if not T else [("qts", 3), ("wts", 4), ("ws", 6)]):
        ex.append(("mixed-%s-%d" % tn, [tn], MIXED, 5 if T else 3, 6000))
    # two searches interleaved
    for a in ([[("qts", 3), ("wts", 3)]] if not T else [[("qts", 3), ("wts", 3)], [("ws", 1), ("ws", 10)], [("wts", 1), ("wts", 2)]]):
        ex.append(("two-" + "+".join("%s-%d" % x for x in a), a, TWO, 40 if T else 4, 6000))
    # commands that only read
    for tn in ([("qts", 3), ("wts", 4)] if not T else [("qts", 3), ("qts", 6), ("wts", 4), ("ws", 8)]):
        ex.append(("readers-%s-%d" % tn, [tn], READERS, 40, 2000))
    for e in ex:
        try:
            x = Explorer(ctx, binary, *e)
            x.run()
        except Fresh as f:
            ctx.violation("fresh " + e[0], str(f))
    # two searches at the same time
    D = lambda t, n, *x: ["./driver.sh", t, str(n)] + list(x)
    S = lambda t, n, x: "SLURM_TMPDIR=tmp ./driver.sh %s %d -s %s" % (t, n, x)
    two = [("wts-3+qts-3", (), D("wts", 3, "-h"), D("qts", 3, "-h", "-p", "WX", "-c")),
           ("ws-1+ws-10", [["mkdir", "-p", "tmp"]], S("ws", 1, "-h"), S("ws", 10, "")),
           ("qts-d-2+qts-1", [D("qts", 2)], D("qts", 2, "-d", "-h"), "./pair_file_cleanup.sh qts 1; ./driver.sh qts 1 -p WY")]
    if T:
        two += [("qts-3+wts-3", (), D("qts", 3, "-h"), D("wts", 3, "-h", "-p", "WX", "-c")), ("ws-10+ws-1", [["mkdir", "-p", "tmp"]], S("ws", 10, ""), S("ws", 1, "-h")), ("ws-1+ws-10-plain", (), D("ws", 1, "-h"), D("ws", 10, "-h")),
                ("wts-d-2+wts-20", [D("wts", 2), ["./target/release/rust", "create", "wts", "20", "0", "0", "4", "8", "WZ"]], D("wts", 2, "-d", "-h"), "./countpairs.sh wts 20; ./sortpairs.sh wts 20"),
                ("ws-7+ws-7-table", [D("ws", 6)], D("ws", 7, "-h"), "python3 collect_results.py 6 6 ws t"), ("wts-6+wts-4", (), D("wts", 6, "-h"), D("wts", 4, "-h", "-c", "-p", "WY"))]
    for x in two:
        Schedules(ctx, binary, *x, after=(), content=lambda d: tree(d)[0], differ=changed).run()
    ctx.extra["exhaustive"] = True
