"""C04: configurations, staging variants and orders of the independent jobs all give the same result."""
import itertools
from build import *
from searches import *
from sched import Schedules

FILES = ("result.seq", "result-qts.seq", "result.qhm", "result.mat")


def content(d, t, n):
    """The content of the result files, without the order of their entries"""
    fd = fdir(d, t, n)
    seq = lines(fd + "/result.seq")
    qts = lines(fd + "/result-qts.seq")
    qhm = read(fd + "/result.qhm")
    mat = lines(fd + "/result.mat")
    return dict(seq=None if seq is None else tuple(sorted(seq)), qts=None if qts is None else tuple(sorted(qts)),
                qhm=None if qhm is None else tuple(sorted(x for x in qhm.split("\n\n") if x.strip())),
                mats=None if mat is None else len(mat))


def staged(d, t, n, p, m):
    yield ["./pairs.sh", t, str(n), "-p", p] + (["-c"] if m == "correlation" else [])
    yield ["./sortpairs.sh", t, str(n)]
    yield ["./join_pairs.sh", t, str(n)]
    yield ["./convert_hm.sh", t, str(n)]
    yield ["./convert_qhm.sh", t, str(n)]


def staged_slurm(d, t, n, p, m):
    os.makedirs(d + "/slurmtmp")
    yield ["./pairs.sh", t, str(n), "-s", "-p", p] + (["-c"] if m == "correlation" else [])
    yield "SLURM_TMPDIR=%s/slurmtmp ./sortpairs.sh %s %d -s" % (d, t, n)
    yield ["./join_pairs.sh", t, str(n)]
    yield ["./convert_hm.sh", t, str(n)]
    yield ["./convert_qhm.sh", t, str(n)]


def driver_slurm(d, t, n, p, m):
    os.makedirs(d + "/slurmtmp")
    yield "SLURM_TMPDIR=%s/slurmtmp ./driver.sh %s %d -s -h -p %s %s" % (d, t, n, p, "-c" if m == "correlation" else "")


def rowsums(d, t, n):
    os.makedirs(fdir(d, t, n), exist_ok=True)
    rc, out = sh(d, ["./target/release/rust", "rowsums", t, str(n)])
    if rc:
        raise Step("rowsums: " + out[-300:])
    return [tuple(l.split()) for l in lines(fdir(d, t, n) + "/rowsums.quad")]


class Step(Exception):
    pass


def by_rowsum(order, sort_each=False):
    def v(d, t, n, p, m):
        for rs in order(rowsums(d, t, n)):
            yield ["./target/release/rust", "pairs_rowsum", t, str(n)] + list(rs) + [m, p]
            if sort_each:
                yield ["./sortpairs.sh", t, str(n)]
        yield ["./sortpairs.sh", t, str(n)]
        yield from finish(t, n)
    return v


def finish(t, n):
    yield ["./target/release/rust", "join", t, str(n)]
    yield ["./target/release/rust", "convert", "hm", t, str(n)]
    yield ["./target/release/rust", "convert", "qhm", t, str(n)]


def by_pair(order, create):
    def v(d, t, n, p, m):
        rs = rowsums(d, t, n)
        if create:
            for r in rs:
                yield ["./target/release/rust", "create", t, str(n)] + list(r) + [p]
        for r, k in order([(r, k) for r in rs for k in ("1", "2")]):
            yield ["./target/release/rust", "pair_single", t, str(n)] + list(r) + [m, p, k]
        yield ["./sortpairs.sh", t, str(n)]
        yield from finish(t, n)
    return v


def jobs_at_once(d, t, n, p, m):
    rs = rowsums(d, t, n)
    yield " & ".join("./target/release/rust pair_single %s %d %s %s %s %s" % (t, n, " ".join(r), m, p, k)
                     for r in rs for k in "12") + " & wait"
    yield ["./sortpairs.sh", t, str(n)]
    yield from finish(t, n)


VARIANTS = {
    "driver-slurm": driver_slurm, "staged": staged, "staged-slurm": staged_slurm,
    "rowsums": by_rowsum(lambda l: l), "rowsums-reversed": by_rowsum(lambda l: l[::-1]),
    "rowsums-sorted-each": by_rowsum(lambda l: l, True),
    "pairs": by_pair(lambda l: l, True), "pairs-reversed": by_pair(lambda l: l[::-1], False),
    "pairs-second-first": by_pair(lambda l: sorted(l, key=lambda x: (x[1] != "2", x[0])), False),
    "pairs-at-once": jobs_at_once,
}


def run(ctx):
    binary = build_program()
    tn = lengths(ctx)
    # conversions to Hadamard matrices are compared up to these lengths (graph canonisation dominates beyond)
    hm = {"wts": 13, "qts": 11, "ws": 17} if ctx.thorough else {"wts": 9, "qts": 9, "ws": 13}
    after = lambda d, k: content(d, k[0], k[1])
    res = run_matrix(ctx, binary, [x for x in tn if x[1] <= hm[x[0]]], after=after)
    res.update(run_matrix(ctx, binary, [x for x in tn if x[1] > hm[x[0]]], had=False, after=after))
    base = {}
    for k, r in res.items():
        t, n = k[0], k[1]
        ctx.traces += 1
        if r["rc"] != 0:
            ctx.violation("status " + name(k), "driver.sh fails: " + r["out"][-400:])
            continue
        c = r["after"]
        b = base.setdefault((t, n), (name(k), c))
        compare(ctx, "config", name(k), c, b, t)
    # staging variants: all lengths up to a bound with every pairing and matching option
    lim = {"wts": 9, "qts": 8, "ws": 14} if not ctx.thorough else {"wts": 11, "qts": 9, "ws": 17}
    jobs, keys = [], []
    for (t, n) in tn:
        if n > lim[t] or (t, n) not in base:
            continue
        for v in VARIANTS:
            for p in PAIRINGS if ctx.thorough or n < 6 else [PAIRINGS[n % 3], PAIRINGS[(n + 1) % 3]]:
                for m in MATCHES:
                    # every variant with every pairing; both matching options on the longest lengths and the short ones
                    if not ctx.thorough and m == "correlation" and n not in (2, 5, lim[t]):
                        continue
                    if not ctx.thorough and n > 8 and v not in ("driver-slurm", "staged", "rowsums-reversed", "pairs-reversed"):
                        continue
                    keys.append((t, n, p, m, v))
    # all orders of the jobs of the small searches
    perms = []
    for (t, n) in tn:
        if (t, n) in base and n <= lim[t]:
            perms.append((t, n))

    def job(k):
        def f():
            t, n, p, m, v = k
            d = rundir(binary)
            try:
                steps = 0
                had = n <= (8 if not ctx.thorough else 10)
                for cmd in VARIANTS[v](d, t, n, p, m):
                    if not had:
                        if "hm" in cmd or cmd[0] == "./convert_hm.sh":
                            continue
                        if isinstance(cmd, str):
                            cmd = cmd.replace(" -h ", " ")
                    rc, out = sh(d, cmd)
                    steps += 1
                    if rc:
                        return "%s: %s" % (cmd if isinstance(cmd, str) else " ".join(cmd), out[-300:]), steps
                return content(d, t, n), steps
            except Step as e:
                return str(e), 1
            finally:
                shutil.rmtree(d)
        return f
    out = parallel([(cost(k[0], k[1]), job(k)) for k in keys])
    for k, (c, steps) in zip(keys, out):
        ctx.traces += 1
        ctx.transitions += steps
        nm = "%s-%d-%s-%s-%s" % k
        if isinstance(c, str):
            ctx.violation("variant-fails " + nm, c)
        else:
            compare(ctx, "variant", nm, c, base[k[0], k[1]], k[0], k[1] > (8 if not ctx.thorough else 10))
    # every order of the rowsum jobs and of the single-pair jobs, where there are at most 4 (24 orders)
    orders(ctx, binary, base, perms)
    # independent jobs of one search at the same time
    concurrent(ctx, binary)
    # published results
    for n in range(1, 22):
        pub = "%s/wts-results/find_%d/" % (REPO, n)
        if ("wts", n) not in base or not os.path.isdir(pub):
            continue
        got = base["wts", n][1]
        ctx.count("published_lengths_compared")
        want = dict(seq=tuple(sorted(lines(pub + "result.seq"))), qts=tuple(sorted(lines(pub + "result-qts.seq"))),
                    qhm=tuple(sorted(x for x in read(pub + "result.qhm").split("\n\n") if x.strip())),
                    mats=len(lines(pub + "result.mat")))
        compare(ctx, "published", "wts-%d" % n, got, ("wts-results", want), "wts", n > hm["wts"])
    ctx.states = sum(len(c["seq"] or ()) + len(c["qhm"] or ()) for _, c in base.values())
    ctx.check(ctx.states > 100, "vacuous", "hardly anything was compared")
    ctx.extra.update(configurations=len(res), staged_executions=len(keys), exhaustive=True)


def compare(ctx, kind, nm, c, base, t, nohm=False):
    for f in ("seq", "qts", "qhm", "mats"):
        a, b = c[f], base[1][f]
        ctx.transitions += 1
        if a is None and f == "qts" and t != "wts":
            continue
        if f == "mats" and (a is None or b is None) and nohm:
            continue
        if a != b:
            if isinstance(a, tuple) and isinstance(b, tuple):
                d = "only here %s; only there %s" % ([x for x in a if x not in b][:2], [x for x in b if x not in a][:2])
                if set(a) == set(b):
                    d = "entries are repeated differently"
            else:
                d = "%s here, %s there" % (a if not isinstance(a, tuple) else len(a), b if not isinstance(b, tuple) else len(b))
            ctx.violation("%s-%s %s" % (kind, f, nm), "%s of %s differs from %s: %s" % (f, nm, base[0], d))
    if c["seq"] and len(c["seq"]) > 1:
        ctx.sample("%s: %d sequences, %s matrices" % (nm, len(c["seq"]), c["mats"]), 6)


def concurrent(ctx, binary):
    R = "./target/release/rust"
    d = rundir(binary)
    for (t, n, p, q) in [("qts", 3, "WZ", 7), ("ws", 7, "WX", 7)] + ([("wts", 7, "WY", 7), ("wts", 3, "WX", 9), ("qts", 4, "WY", 8)] if ctx.thorough else []):
        try:
            rs, two = rowsums(d, t, n), rowsums(d, t, q)
        except Step as e:
            ctx.violation("variant-fails rowsums-%s-%d" % (t, n), str(e))
            continue
        a = [t, str(n)]
        one = lambda r, k: [R, "pair_single"] + a + list(r) + ["psd", p, k]
        rest = lambda x, l: [one(r, k) for r in x for k in l]
        fin = lambda t, n: [["./sortpairs.sh", t, str(n)]] + list(finish(t, n))
        c = lambda n: lambda d: content(d, t, n)
        # the two files of one rowsum
        Schedules(ctx, binary, "pairs-%s-%d" % (t, n), rest(rs[1:], "12"), one(rs[0], "1"), one(rs[0], "2"), fin(t, n), c(n), every=True).run()
        # two rowsums, as single pairs and whole
        if len(two) > 1:
            b = [t, str(q)]
            w = lambda r: [R, "pairs_rowsum"] + b + list(r) + ["correlation", p]
            Schedules(ctx, binary, "rowsums-%s-%d" % (t, q), [w(r) for r in two[2:]], w(two[0]), w(two[1]), fin(t, q), c(q), every=True).run()
        # the two conversions
        g = [["./driver.sh", t, str(n), "-p", p]]
        Schedules(ctx, binary, "conversions-%s-%d" % (t, n), g, ["./convert_hm.sh"] + a, ["./convert_qhm.sh"] + a, (), c(n)).run()
        Schedules(ctx, binary, "conversions-back-%s-%d" % (t, n), g, ["./convert_qhm.sh"] + a, ["./convert_hm.sh"] + a, (), c(n)).run()
    shutil.rmtree(d)


def orders(ctx, binary, base, perms):
    jobs, keys = [], []

    def job(t, n, p, single, perm, rs):
        def f():
            d = rundir(binary)
            try:
                os.makedirs(fdir(d, t, n))
                for i in perm:
                    if single:
                        r, k = rs[i // 2], str(i % 2 + 1)
                        cmd = ["./target/release/rust", "pair_single", t, str(n)] + list(r) + ["psd", p, k]
                    else:
                        cmd = ["./target/release/rust", "pairs_rowsum", t, str(n)] + list(rs[i]) + ["psd", p]
                    rc, out = sh(d, cmd)
                    if rc:
                        return "%s: %s" % (" ".join(cmd), out[-300:])
                for cmd in [["./sortpairs.sh", t, str(n)]] + list(finish(t, n)):
                    rc, out = sh(d, cmd)
                    if rc:
                        return "%s: %s" % (" ".join(cmd), out[-300:])
                return content(d, t, n)
            finally:
                shutil.rmtree(d)
        return f
    d = rundir(binary)
    for (t, n) in perms:
        try:
            rs = rowsums(d, t, n)
        except Step as e:
            ctx.violation("variant-fails rowsums-%s-%d" % (t, n), str(e))
            continue
        for single in (False, True):
            k = len(rs) * (2 if single else 1)
            if k < 2 or k > (4 if ctx.thorough else 3 if not single else 4):
                continue
            if not ctx.thorough and n > {"wts": 7, "qts": 7, "ws": 12}[t]:
                continue
            for p in PAIRINGS if ctx.thorough else ["WZ" if n % 2 else "WX"]:
                for perm in itertools.permutations(range(k)):
                    keys.append((t, n, p, single, perm))
                    jobs.append((cost(t, n), job(t, n, p, single, perm, rs)))
    shutil.rmtree(d)
    for k, c in zip(keys, parallel(jobs)):
        ctx.traces += 1
        ctx.count("orders_of_independent_jobs")
        nm = "%s-%d-%s-%s-%s" % (k[0], k[1], k[2], "pairs" if k[3] else "rowsums", "".join(map(str, k[4])))
        if isinstance(c, str):
            ctx.violation("order-fails " + nm, c)
        else:
            compare(ctx, "order", nm, c, base[k[0], k[1]], k[0])
