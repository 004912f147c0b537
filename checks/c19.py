"""C19: the quaternionic matrix files, of real searches and of given lists of sequences."""
import itertools, re
from build import *
from searches import *


def log_report(log):
    """(sequences, with non-commuting entries) of each conversion reported in a log"""
    return [(int(a), int(b), int(c)) for a, b, c in
            re.findall(r"converted (\d+) sequences of size (\d+)\. (\d+) contained non-commuting elements", log or "")]


def run(ctx):
    binary = build_program()
    top = {"wts": 14, "qts": 11, "ws": 20} if ctx.thorough else {"wts": 12, "qts": 9, "ws": 17}
    topall = {"wts": 11, "qts": 9, "ws": 19} if ctx.thorough else {"wts": 8, "qts": 8, "ws": 14}

    def search(t, n, p, m, had):
        def f():
            d = rundir(binary)
            try:
                fd = fdir(d, t, n)
                r = dict(n=n, rc=driver(d, t, n, p, m, had=had, timeout=800))
                if r["rc"][0]:
                    return r
                r["log"] = read(fd + "/result.log")
                r["seqs"] = lines(fd + "/result.seq")
                r["qhm"] = ref("qhm", fd + "/result.seq", fd + "/result.qhm")
                # again, by the script and by the command: nothing changes
                before = read(fd + "/result.qhm")
                r["again"] = []
                for cmd in (["./convert_qhm.sh", t, str(n)], ["./target/release/rust", "convert", "qhm", t, str(n)]):
                    rc, out = sh(d, cmd)
                    r["again"].append((" ".join(cmd), rc, out, read(fd + "/result.qhm") == before))
                if n <= topall[t]:
                    rc, out = sh(d, ["./target/release/rust", "qhm-all", t, str(n)])
                    r["all"] = (rc, out[-300:], ref("qhm-all", t, fd + "/result.seq", fd + "/qhm_all.mat") if rc == 0 else "")
                    r["intact"] = read(fd + "/result.qhm") == before and lines(fd + "/result.seq") == r["seqs"]
                return r
            finally:
                shutil.rmtree(d)
        return f
    keys = [(t, n, PAIRINGS[n % 3], MATCHES[n // 3 % 2], n <= 5) for t in top for n in range(1, top[t] + 1)
            if ctx.thorough or (t, n) not in QUICK_SKIP]
    for k, r in zip(keys, parallel([(cost(k[0], k[1]) * (9 if k[1] <= topall[k[0]] else 1), search(*k)) for k in keys])):
        nm = "%s-%d" % k[:2]
        if not ctx.check(r["rc"][0] == 0, "search " + nm, lambda: "driver.sh fails: " + r["rc"][1][-300:]):
            continue
        ctx.traces += 1
        judge(ctx, nm, k[1], r["seqs"], r["qhm"], log_report(r["log"])[-1:], "result.qhm")
        if len(r["seqs"]) > 1 and k[1] > 5:
            ctx.sample("%s: %d sequences: %s" % (nm, len(r["seqs"]), r["qhm"]))
        for cmd, rc, out, same in r["again"]:
            ctx.transitions += 1
            ctx.check(rc == 0 and same, "again " + nm, lambda: "%s repeated: status %d, file %s" % (cmd, rc, "unchanged" if same else "changed"))
            judge(ctx, nm + " " + cmd, k[1], r["seqs"], r["qhm"], log_report(out), "the repeated conversion")
        if "all" in r:
            rc, out, v = r["all"]
            ctx.transitions += 1
            if ctx.check(rc == 0, "all " + nm, lambda: "qhm-all fails: " + out) and ctx.check(v.startswith("ok"), "all " + nm, "qhm_all.mat: " + v):
                ctx.states += int(v.split()[1])
                ctx.sample("%s: qhm_all.mat: %s matrices" % (nm, v.split()[1]), 20)
            ctx.check(r["intact"], "all-intact " + nm, "qhm-all changes the result files")
    given(ctx, binary)
    ctx.extra["exhaustive"] = True


def judge(ctx, nm, n, seqs, v, rep, what):
    ctx.transitions += 1
    ctx.states += len(seqs)
    if not ctx.check(v.startswith("ok"), "matrices " + nm, "%s: %s" % (what, v)):
        return
    nc = int(v.split()[2])
    ctx.check(rep == [(len(seqs), n, nc)], "report " + nm, "%s: reported (sequences, size, non-commuting) %s, expected %s" % (what, rep, (len(seqs), n, nc)))


def given(ctx, binary):
    """Lists of sequences written by hand: all perfect ones that start with 1, their orders, parts and repetitions"""
    jobs, keys = [], []

    def job(n, l):
        def f():
            d = rundir(binary)
            try:
                fd = fdir(d, "qts", n)
                os.makedirs(fd)
                with open(fd + "/result.seq", "w") as g:
                    g.write("".join(x + "\n" for x in l))
                rc, out = sh(d, ["./convert_qhm.sh", "qts", str(n)])
                return rc, out, ref("qhm", fd + "/result.seq", fd + "/result.qhm") if rc == 0 else "", log_report(read(fd + "/result.log"))
            finally:
                shutil.rmtree(d)
        return f
    # from length 7 on, entries may commute with the one before but not with all before (i, -1, j)
    for n, text in ((7, "+Iij"), (8, "+ij"), (9, "-ij")) if ctx.thorough else ((8, "+ij"),):
        for a in text:
            l = [a + "".join(x) for x in itertools.product(text, repeat=n - 1)]
            keys.append((n, l))
            jobs.append((len(l), job(n, l)))
    for n in range(1, 6 if ctx.thorough else 5):
        all_ = ref("perfect", n).split("\n")
        ls = [all_, all_[::-1], all_ + all_, []]
        # every list of at most three among the first few
        ls += [list(x) for k in (1, 2, 3) for x in itertools.product(all_[:3] + all_[-2:], repeat=k)]
        if not ctx.thorough:
            ls = ls[:4] + ls[4 + n % 3::3]
        # every sequence, perfect or not: the entries meet in every order
        text = "+-iIjJkKqQxXyYzZ" if n < (4 if ctx.thorough else 3) else "+-iIjJkK" if n < 5 else "+Ij"
        for a in text:
            ls.append([a + "".join(x) for x in itertools.product(text, repeat=n - 1)])
        for l in ls:
            keys.append((n, l))
            jobs.append((len(l), job(n, l)))
    # long lists: files of more than a megabyte, more lines than 16 bits count
    for n, l in ((1, list("+-iIjJkKqQxXyYzZ") * 4400), (4, ["".join(x) for x in itertools.product("+-iIjJkKqQxXyYzZ", repeat=4)])):
        keys.append((n, l))
        jobs.append((2 * len(l), job(n, l)))
    # published sequences, up to longer lengths than searched
    pub = {}
    for x in read(VERIF + "/data/published.txt").split("\n")[:-1]:
        t, n, q = x.split()
        pub.setdefault((t, int(n)), []).append(q)
    for (t, n), l in sorted(pub.items()):
        if n > 8:
            keys.append((n, l))
            jobs.append((len(l), job(n, l)))
    # long sequences, each with its opposite and a rotation
    for q in long_quadruples():
        n = len(q[0])
        if n > 21 and (ctx.thorough or n <= 63):
            l = [symbols(x) for x in (q, [[-v for v in s] for s in q], [s[1:] + s[:1] for s in q])]
            keys.append((n, l))
            jobs.append((n ** 3 / 10, job(n, l)))
    for (n, l), (rc, out, v, rep) in zip(keys, parallel(jobs)):
        ctx.traces += 1
        nm = "given-%d-%s" % (n, ",".join(l[:3]))
        if ctx.check(rc == 0, "status " + nm, lambda: "convert_qhm.sh fails: " + out[-300:]):
            judge(ctx, nm, n, l, v, rep, "the matrices of %d given sequences %s" % (len(l), l[:3]))
    ctx.count("given_lists", len(keys))
