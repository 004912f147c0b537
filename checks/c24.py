"""C24: the summary table and the pair counts against the files, for every subset of completed steps."""
import itertools, math, re
from build import *
from pipe import *

HEAD = {False: dict(n="n", W="W_{equ}", Q="Q_{equ}", M="M_{equ}", time="Time (s)", qt="QT Equ Time (s)", hm="HM Equ Time (s)", pairs="Pairs", disk="Disk usage (MB)"),
        True: dict(n="$n$", W="W_{\\text{equ}}", Q="Q_{\\text{equ}}", M="M_{\\text{equ}}", time="Time (s)", pairs="Pairs", disk="Space")}


def parse(out, t, latex):
    """The rows of the table at the end of the output, or a message"""
    ls = out.rstrip("\n").split("\n")
    first = "$n$ &" if latex else None
    i = next((i for i, l in enumerate(ls) if (l.startswith("$n$") if latex else re.match(r" *n +[QW]_", l))), None)
    if i is None:
        return "no table: " + out[-200:]
    cols = (["n", "W"] if t == "wts" else ["n"]) + (["Q", "M", "time", "pairs", "disk"] if latex else ["Q", "M", "time", "qt", "hm", "pairs", "disk"])
    squash = lambda x: re.sub(r"[\s&$]|\\\\", "", x)
    if squash(ls[i]) != "".join(squash(HEAD[latex][c]) for c in cols):
        return "unexpected columns " + ls[i]
    rows = []
    for l in ls[i + (2 if latex else 1):]:
        f = [x.strip() for x in l.replace("\\\\", "").split("&")] if latex else l.split()
        try:
            if len(f) != len(cols):
                raise ValueError
            rows.append({c: (float(x) if c in ("time", "qt", "hm", "disk") else int(x)) for c, x in zip(cols, f)})
        except ValueError:
            return "unreadable row " + l
    return rows


NONE = dict(W=-1, Q=-1, M=-1, time=-1, qt={-1}, hm={-1}, pairs=-1, disk=-1)


def expected(d, t, n, pairs):
    """What the row of a length must say, from its files; `pairs` is the number of pairs that were generated"""
    fd = fdir(d, t, n)
    log = read(fd + "/result.log")
    if log is None:
        return NONE
    count = lambda f: -1 if lines(fd + "/" + f) is None else len(lines(fd + "/" + f))
    size = sum(os.path.getsize(os.path.join(p, f)) for s in os.listdir(fd) if os.path.isdir(fd + "/" + s) for p, _, fs in os.walk(fd + "/" + s) for f in fs)
    sec = lambda l: float(re.search(r"([\d.]+) seconds", l).group(1))
    ls = log.split("\n")
    return dict(W=count("result.seq") if t == "wts" else -1, Q=count("result-qts.seq") if t == "wts" else count("result.seq") if t == "qts" else -1,
                M=count("result.mat"), time=sum(sec(l) for l in ls if re.match(r"(Total time|Matching took).*: [\d.]+ seconds", l)),
                qt={sec(l) for l in ls if l.startswith("Reducing to equivalence took")} or {-1},
                hm={sec(l) for l in ls if l.startswith("Converting to matrices up to Hadamard equivalence took")} or {-1},
                pairs=pairs, disk=size / 1024 ** 2)


def near(a, b, digits):
    return abs(a - b) <= 0.5 * 10 ** -digits * 1.01 + 1e-9 * abs(b)


def same(got, want):
    for c, v in got.items():
        if c == "n":
            continue
        w = want[c]
        if c in ("qt", "hm"):
            ok = any(near(v, x, 2) for x in w)
        elif c in ("time", "disk"):
            ok = near(v, w, 2 if c == "time" else 1)
        else:
            ok = v == w
        if not ok:
            return c
    return None


def table(d, t, a, b, want, nm, formats=(("t",), ("l",), ("t", "verbose"), ("l", "verbose"))):
    """want(n) is the expected row"""
    bad = []
    for f in formats:
        rc, out = sh(d, ["python3", "./collect_results.py", str(a), str(b), t] + list(f))
        key = "table %s %d-%d %s" % (nm, a, b, "".join(f))
        rows = parse(out, t, f[0] == "l") if rc == 0 else "status %d: %s" % (rc, out[-300:])
        if isinstance(rows, str):
            bad.append((key, rows))
            continue
        if [r["n"] for r in rows] != list(range(a, b + 1)):
            bad.append((key, "rows for lengths %s" % [r["n"] for r in rows]))
            continue
        for r in rows:
            c = same(r, want(r["n"]))
            if c:
                bad.append((key, "length %d: column %s says %s, the files say %s" % (r["n"], c, r[c], want(r["n"])[c])))
    return bad, len(formats), (b - a + 1) * len(formats)


def total(d, t, n, suffixes=(".sorted", ".pair")):
    fd = fdir(d, t, n)
    return sum(len(lines(os.path.join(fd, s, f))) for s in (os.listdir(fd) if os.path.isdir(fd) else []) if os.path.isdir(fd + "/" + s)
               for f in os.listdir(os.path.join(fd, s)) if f.endswith(suffixes))


def countpairs(d, t, n):
    rc, out = sh(d, ["./countpairs.sh", t, str(n)])
    return int(out) if rc == 0 and re.fullmatch(r"\d+\n", out) else (rc, out[-200:])


R = "./target/release/rust"


def steps(t, n, p, m, mode, conv):
    """Commands of one history: (what is done, command)"""
    c = ["-c"] if m == "correlation" else []
    if mode == "driver":
        yield "driver", ["./driver.sh", t, str(n), "-p", p] + c + (["-h"] if "h" in conv else [])
        return
    if mode == "scripts":
        yield "pairs", ["./pairs.sh", t, str(n), "-p", p] + c
    else:
        yield "rowsums", "mkdir -p results/pairs/%s/find_%d && %s rowsums %s %d" % (t, n, R, t, n)
        yield "pairs", "while read r; do %s pairs_rowsum %s %d $r %s %s || exit 1; done < results/pairs/%s/find_%d/rowsums.quad" % (R, t, n, m, p, t, n)
    yield "sort", ["./sortpairs.sh", t, str(n)]
    yield "join", ["./join_pairs.sh", t, str(n)]
    for x in conv:
        yield {"h": "hm", "q": "qhm"}[x], ["./convert_hm.sh" if x == "h" else "./convert_qhm.sh", t, str(n)]


def history(binary, t, n, p, m, mode, conv, cleanup):
    """One history with the table and the count after every step; cleanup happens after step number `cleanup`"""
    def f():
        d = rundir(binary)
        bad, tables, rows, counts = [], 0, 0, 0
        try:
            gen = dict(pairs=0, sorted=0)

            def look(what):
                nonlocal tables, rows, counts
                nm = "%s-%d-%s-%s-%s%s-%s" % (t, n, p, m, mode, conv, what)
                c = countpairs(d, t, n)
                counts += 1
                if c != total(d, t, n, (".sorted",)):
                    bad.append(("count " + nm, "countpairs.sh prints %s, the sorted files have %d lines" % (c, total(d, t, n, (".sorted",)))))
                log = read(fdir(d, t, n) + "/result.log")
                # the log of the staged commands does not say how many pairs there are: those of the files
                pairs = gen["pairs"] if mode != "staged" else total(d, t, n, (".sorted",))
                w = expected(d, t, n, pairs)
                b, k, r = table(d, t, max(1, n - 1), n + 1, lambda x: w if x == n else NONE, nm,
                                (("t",), ("l",)) if (n + tables) % 3 else (("t", "verbose"), ("l", "verbose")))
                bad.extend(b)
                tables += k
                rows += r
            look("none")
            l = list(steps(t, n, p, m, mode, conv))
            for i, (what, cmd) in enumerate(l):
                rc, out = sh(d, cmd)
                if rc:
                    return [("step %s-%d-%s %s" % (t, n, mode, what), "status %d: %s" % (rc, out[-300:]))], tables, rows, counts
                if what in ("pairs", "driver"):
                    gen["pairs"] = total(d, t, n)
                look(what)
                if i == cleanup:
                    before = {x: read(fdir(d, t, n) + "/" + x) for x in os.listdir(fdir(d, t, n)) if x.startswith("result")}
                    rc, out = sh(d, ["./pair_file_cleanup.sh", t, str(n)])
                    after = {x: read(fdir(d, t, n) + "/" + x) for x in os.listdir(fdir(d, t, n)) if x.startswith("result")}
                    if rc or before != after:
                        bad.append(("cleanup %s-%d" % (t, n), "status %d, result files %s" % (rc, "changed" if before != after else "unchanged")))
                    look(what + "+cleanup")
                    if what in ("pairs", "sort"):
                        break
            return bad, tables, rows, counts
        finally:
            shutil.rmtree(d)
    return f


def run(ctx):
    binary = build_program()
    top = {"wts": 9, "qts": 8, "ws": 14} if ctx.thorough else {"wts": 7, "qts": 6, "ws": 10}
    jobs, keys = [], []
    modes = [("driver", "h", 0), ("driver", "", 0)] + [(m, c, k) for m in ("scripts", "staged") for c in ("", "h", "q", "hq", "qh")
                                                       for k in range(3 + len(c) + (m == "staged"))]
    for t in top:
        for n in range(1, top[t] + 1):
            for i, (m, c, k) in enumerate(modes):
                # the histories share their first steps: the quick tier takes every history on some lengths of each type
                if not ctx.thorough and (i + n) % 6 and n != top[t] and n != 4 or not ctx.thorough and n == 4 and (i + len(t)) % 2:
                    continue
                keys.append((t, n, m, c, k))
                jobs.append((cost(t, n), history(binary, t, n, PAIRINGS[(n + i) % 3], MATCHES[(n + i) // 3 % 2], m, c, k)))
    rows = 0
    for k, (bad, tb, rw, cn) in zip(keys, parallel(jobs)):
        ctx.traces += 1
        ctx.transitions += tb + cn
        ctx.states += rw
        for key, msg in bad:
            ctx.violation(key, msg)
        if len(ctx.samples) < 6 and k[1] > 5:
            ctx.sample("%s-%d %s%s, cleanup after step %d: %d tables, %d rows" % (k + (tb, rw)))
    ctx.count("histories", len(keys))
    ranges(ctx, binary)
    synthetic(ctx, binary)
    counts(ctx, binary)
    published(ctx, binary)
    ctx.extra["exhaustive"] = True


def published(ctx, binary):
    """The results published with the repository, which reach longer lengths"""
    src = REPO + "/wts-results"
    if not os.path.isdir(src):
        return
    d = rundir(binary)
    shutil.copytree(src, d + "/results/pairs/wts")
    want = {}
    for n in range(1, 25):
        log = read(fdir(d, "wts", n) + "/result.log")
        m = re.findall(r"Generated (\d+) total pairs", log or "")
        want[n] = expected(d, "wts", n, int(m[0]) if m else 0)
    for a, b in ((1, 24), (9, 11), (10, 21), (21, 22)):
        bad, tables, rows = table(d, "wts", a, b, lambda n: want[n], "published")
        ctx.transitions += tables
        ctx.states += rows
        for key, msg in bad:
            ctx.violation(key, msg)
    ctx.sample("published results: %s" % want[16])
    shutil.rmtree(d)


def ranges(ctx, binary):
    """All ranges of lengths over directories whose lengths are in different states; cleanup of every range"""
    def job(t, N, k):
        def f():
            d = rundir(binary)
            bad, tables, rows = [], 0, 0
            try:
                gen = {}
                for n in range(1, N + 1):
                    s = (n * 3 + k) % 7        # number of steps done for this length
                    for i, (what, cmd) in enumerate(steps(t, n, "WZ", "psd", "scripts", "hq")):
                        if i >= s:
                            break
                        rc, out = sh(d, cmd)
                        if rc:
                            return [("step %s-%d %s" % (t, n, what), out[-300:])], 0, 0
                        if i == 0:
                            gen[n] = total(d, t, n)
                # an unrelated type must not show up
                want = {n: expected(d, t, n, gen.get(n, -1)) for n in range(0, N + 3)}
                for a in range(1, N + 2):
                    for b in range(a - 1, N + 2):
                        x, y, z = table(d, t, a, b, lambda n: want[n], "ranges%d-%s" % (k, t), (("t",), ("l", "verbose")))
                        bad += x
                        tables += y
                        rows += z
                for u in ("wts", "qts", "ws"):
                    if u != t:
                        x, y, z = table(d, u, 1, N, lambda n: NONE, "other%d-%s-%s" % (k, t, u))
                        bad += x
                        tables += y
                        rows += z
                # cleanup of a range removes the pairs of its lengths and nothing else
                tree = lambda: {os.path.relpath(os.path.join(p, f), d): read(os.path.join(p, f)) for p, _, fs in os.walk(d + "/results") for f in fs}
                b, a = N - k % 3, 1 + k % 2
                before = tree()
                rc, out = sh(d, ["./pair_file_cleanup.sh", t, str(a), str(b)])
                keep = {f: c for f, c in before.items() if not ("/rowsum_" in f and any("/find_%d/" % n in f for n in range(a, b + 1)))}
                if rc or tree() != keep:
                    bad.append(("cleanup-range %s %d-%d" % (t, a, b), "status %d, files %s" % (rc, sorted(set(tree()) ^ set(keep))[:4])))
                for n in range(1, N + 1):
                    tables += 1
                    if countpairs(d, t, n) != total(d, t, n, (".sorted",)):
                        bad.append(("count-after %s-%d" % (t, n), "countpairs.sh prints %s" % (countpairs(d, t, n),)))
                want = {n: expected(d, t, n, gen.get(n, -1)) for n in range(0, N + 3)}
                x, y, z = table(d, t, 1, N + 1, lambda n: want[n], "cleaned%d-%s" % (k, t))
                return bad + x, tables + y, rows + z
            finally:
                shutil.rmtree(d)
        return f
    keys = [(t, N, k) for t, N in (("wts", 7), ("qts", 6), ("ws", 8)) for k in range(7 if ctx.thorough else 3)]
    for key, (bad, tb, rw) in zip(keys, parallel([(1, job(*k)) for k in keys])):
        ctx.traces += 1
        ctx.transitions += tb
        ctx.states += rw
        for k, msg in bad:
            ctx.violation(k, msg)
    ctx.sample("ranges over directories in different states: %d directories" % len(keys))


NUMS = [0, 1, 7, 10, 99, 100, 1234, 100000]
TIMES = [0.0, 0.01, 9.99, 10.0, 59.25, 123.45, 86400.5, 1234567.89]


def synthetic(ctx, binary):
    """Logs of real searches with other numbers, and files with as many lines: every value of every number"""
    def job(t, n, base):
        def f():
            d = rundir(binary)
            bad, tables, rows = [], 0, 0
            try:
                rc, out = driver(d, t, n, base[0], base[1], had=True)
                if rc:
                    return [("step driver %s-%d" % (t, n), out[-300:])], 0, 0
                fd = fdir(d, t, n)
                log = read(fd + "/result.log")
                pats = dict(pairs=r"(Generated )(\d+)( total pairs)", M=r"()(\d+)( matrices were found)")
                pats.update(W=r"(Found )(\d+)( wts after reducing)" if t == "wts" else None, Q=r"(Found )(\d+)( qts after reducing)" if t != "ws" else None)
                times = re.findall(r"^.*?[\d.]+ seconds", log, re.M)
                files = dict(W="result.seq", Q="result-qts.seq" if t == "wts" else "result.seq", M="result.mat")
                cases = []
                for i in range(len(NUMS)):
                    for j in range(3 if not ctx.thorough else len(NUMS)):
                        cases.append((i, j))
                for i, j in cases:
                    text, vals = log, {}
                    for q, c in enumerate(("pairs", "W", "Q", "M")):
                        if not pats.get(c):
                            continue
                        v = NUMS[(i + q * (j + 1)) % len(NUMS)]
                        if c == "pairs":
                            v *= 100003
                        vals[c] = v
                        text, k = re.subn(pats[c], lambda m: m.group(1) + str(v) + m.group(3), text)
                        if not k and c != "M":
                            return [("log %s-%d" % (t, n), "no report of %s in the log of a search" % c)], tables, rows
                    it = itertools.count()
                    text = re.sub(r"[\d.]+(?= seconds)", lambda m: "%.2f" % TIMES[(i + next(it) * (2 * j + 1)) % len(TIMES)], text)
                    with open(fd + "/result.log", "w") as g:
                        g.write(text)
                    for c, fn in files.items():
                        if c in vals:
                            with open(fd + "/" + fn, "w") as g:
                                g.write("x\n" * vals[c])
                    # sizes: sparse files
                    for s in os.listdir(fd):
                        if os.path.isdir(fd + "/" + s):
                            with open(fd + "/" + s + "/filler", "w") as g:
                                g.truncate([0, 52428, 52429, 1 << 20, 123456789, 5 << 30][(i + 2 * j) % 6])
                    w = expected(d, t, n, vals["pairs"])
                    for c in vals:
                        assert c == "pairs" or w[c] == vals[c], (c, w[c], vals)
                    x, y, z = table(d, t, n, n, lambda m: w, "numbers-%s-%d-%d-%d" % (t, n, i, j), (("t",), ("l",)) if j else (("t",), ("l",), ("l", "verbose"), ("t", "verbose")))
                    bad += x
                    tables += y
                    rows += z
                return bad, tables, rows
            finally:
                shutil.rmtree(d)
        return f
    keys = [(t, n, b) for t, n in (("wts", 6), ("qts", 5), ("ws", 9), ("wts", 9), ("qts", 7)) for b in (("WZ", "psd"), ("WX", "correlation"))]
    for key, (bad, tb, rw) in zip(keys, parallel([(1, job(*k)) for k in keys])):
        ctx.traces += 1
        ctx.transitions += tb
        ctx.states += rw
        for k, msg in bad:
            ctx.violation(k, msg)
    ctx.count("logs_with_other_numbers", len(keys) * len(NUMS) * (len(NUMS) if ctx.thorough else 3))


def counts(ctx, binary):
    """countpairs.sh on every subset of sorted and unsorted files of up to three rowsum directories"""
    names = ["rowsum_0_0_2_10", "rowsum_1_3_3_5", "rowsum_2_2_4_4"]
    slots = [(s, p) for s in names for p in ("pair_WZ", "pair_XY")]
    combos = list(itertools.product(("none", "pair", "sorted"), repeat=6))
    # each file is absent, unsorted or sorted; sizes are distinct powers of two
    if not ctx.thorough:
        combos = [c for i, c in enumerate(combos) if len(set(c[4:])) == 1 or i % 5 == 0]

    def job(cs):
        def f():
            d = rundir(binary)
            bad = []
            try:
                fd = fdir(d, "qts", 9)
                for c in cs:
                    for s in names:
                        shutil.rmtree(fd + "/" + s, ignore_errors=True)
                    want = 0
                    for i, ((s, p), k) in enumerate(zip(slots, c)):
                        os.makedirs(fd + "/" + s, exist_ok=True)
                        if k != "none":
                            with open("%s/%s/%s.pair%s" % (fd, s, p, ".sorted" if k == "sorted" else ""), "w") as g:
                                g.write("1_1_\n" * (3 ** i * (1 if i < 5 else 7)))
                            if k == "sorted":
                                want += 3 ** i * (1 if i < 5 else 7)
                    with open(fd + "/result.seq", "w") as g:
                        g.write("+\n")
                    got = countpairs(d, "qts", 9)
                    if got != want:
                        bad.append(("files " + " ".join(c), "countpairs.sh prints %s, the sorted files have %d lines" % (got, want)))
                return bad
            finally:
                shutil.rmtree(d)
        return f
    for bad in parallel([(1, job(combos[i::32])) for i in range(32)]):
        for k, msg in bad:
            ctx.violation(k, msg)
    ctx.states += len(combos)
    ctx.transitions += len(combos)
    ctx.count("subsets_of_pair_files", len(combos))
