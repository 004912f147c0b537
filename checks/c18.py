"""C18: the reduction up to Hadamard equivalence: harness, and result.mat of real searches."""
import re
from build import *
from searches import *


def run(ctx):
    ctx.harness(build_program("C18"))
    binary = build_program()
    top = {"wts": 13, "qts": 10, "ws": 17} if ctx.thorough else {"wts": 9, "qts": 8, "ws": 13}
    jobs, keys = [], []

    def job(t, n, p):
        def f():
            d = rundir(binary)
            try:
                r = dict(rc=driver(d, t, n, p, had=False, timeout=800))
                fd = fdir(d, t, n)
                r["list"] = lines(fd + ("/result-qts.seq" if t == "wts" else "/result.seq"))
                r["mat"] = {}
                if r["rc"][0]:
                    return r
                for th in (1, 2, 3, 4, 5, 8):
                    if n > 9 and th not in (1, 4) and not ctx.thorough:
                        continue
                    # by the script, on the list, the list reversed, the list with every line repeated
                    src = fd + ("/result-qts.seq" if t == "wts" else "/result.seq")
                    for order in ("as-listed", "reversed", "repeated") if th in (1, 4) and n < 9 else ("as-listed",):
                        l = r["list"] if order == "as-listed" else r["list"][::-1] if order == "reversed" else r["list"] * 2
                        with open(src, "w") as g:
                            g.write("".join(x + "\n" for x in l))
                        rc, out = sh(d, ["./convert_hm.sh", t, str(n)], RAYON_NUM_THREADS=str(th))
                        r["mat"][th, order] = (rc, out, read(fd + "/result.mat"))
                # the same classes in a long list, far apart
                for x, k in (("far", 2600), ("further", 20000)) if ctx.thorough else (("far", 2600),):
                    if n < 6 and r["list"]:
                        l = r["list"]
                        with open(src, "w") as g:
                            g.write("".join(x + "\n" for x in l + l[-1:] * k + l[::-1] + l[:1] * 1100 + l))
                        rc, out = sh(d, ["./convert_hm.sh", t, str(n)])
                        r["mat"][8, x] = (rc, out, read(fd + "/result.mat"))
                return r
            finally:
                shutil.rmtree(d)
        return f
    for (t, n) in [(t, n) for t in top for n in range(1, top[t] + 1)]:
        p = PAIRINGS[n % 3]
        keys.append((t, n, p))
        jobs.append((cost(t, n), job(t, n, p)))
    todo = []
    for (t, n, p), r in zip(keys, parallel(jobs)):
        nm = "%s-%d" % (t, n)
        if r["rc"][0]:
            ctx.violation("search " + nm, "driver.sh fails: " + r["rc"][1][-300:])
            continue
        todo.append((nm, n, r))
    todo += given(ctx, binary)
    seen = {}
    for nm, n, r in todo:
        ctx.states += len(r["list"])
        for (th, order), (rc, out, text) in sorted(r["mat"].items()):
            ctx.traces += 1
            ctx.transitions += 1
            k = "%s threads=%d %s" % (nm, th, order)
            if not ctx.check(rc == 0, "status " + k, lambda: "convert_hm.sh fails: " + out[-300:]):
                continue
            ms = parse_mat(text or "")
            if not ctx.check(None not in ms, "format " + k, "result.mat has a line that is not a matrix"):
                continue
            if not ctx.check(all(len(m) == 4 * n and all(len(x) == 4 * n for x in m) for m in ms), "order " + k, "a matrix does not have order %d" % (4 * n)):
                continue
            key = (nm, tuple(sorted(map(tuple, ms))))
            if key not in seen:
                seen[key] = ref_hadamard(r["list"], ms)
            cs, cm = seen[key]
            ctx.check(None not in cs, "listed " + k, "the matrix of a listed sequence is not Hadamard")
            ctx.check(None not in cm, "hadamard " + k, "result.mat contains a matrix that is not Hadamard")
            ctx.check(len(set(cm)) == len(cm), "equivalent " + k, "result.mat contains %d matrices of %d classes" % (len(cm), len(set(cm))))
            ctx.check(set(cs) <= set(cm), "missing " + k, "%d classes of matrices of listed sequences are missing from result.mat" % len(set(cs) - set(cm)))
            ctx.check(set(cm) <= set(cs), "foreign " + k, "%d matrices of result.mat belong to no listed sequence" % len(set(cm) - set(cs)))
            m = re.search(r"Number of matrices up to equivalence : (\d+)", out)
            ctx.check(m is None or int(m.group(1)) == len(ms), "reported " + k, lambda: "%s reported, %d written" % (m.group(1), len(ms)))
            if len(cs) > 1:
                ctx.sample("%s: %d sequences, %d matrices, none equivalent (%d threads, %s)" % (nm, len(cs), len(cm), th, order), 30)
    ctx.count("conversions_of_real_searches", sum(len(r["mat"]) for _, _, r in todo))
    ctx.extra["exhaustive"] = True


def given(ctx, binary):
    """The command on given lists: published sequences and long ones, with equivalent forms of them"""
    lists = {}
    for x in read(VERIF + "/data/published.txt").split("\n")[:-1]:
        t, n, q = x.split()
        lists.setdefault((t, int(n)), []).append(q)
    lists = {k: l for k, l in lists.items() if 8 < k[1] and (ctx.thorough or k[1] in ((9, 11, 12, 13) if k[0] == "qts" else (10, 12, 15)))}
    if ctx.thorough:
        lists = {k: l[::max(1, len(l) // 12)] for k, l in lists.items()}
    for q in long_quadruples():
        n = len(q[0])
        if n <= 31 and (ctx.thorough or n in (13, 14, 15, 19, 26, 31)):
            forms = [q, [s[3:] + s[:3] for s in q], [[-v for v in s] for s in q], [q[1], q[2], q[0], q[3]], [s[::-1] for s in q]]
            lists["long", n] = [symbols(x) for x in (forms if ctx.thorough or n < 16 else forms[:3])]

    def job(n, l, th):
        def f():
            d = rundir(binary)
            try:
                fd = fdir(d, "qts", n)
                os.makedirs(fd)
                with open(fd + "/result.seq", "w") as g:
                    g.write("".join(x + "\n" for x in l))
                rc, out = sh(d, ["./convert_hm.sh", "qts", str(n)], RAYON_NUM_THREADS=str(th))
                return dict(rc=(0, ""), list=l, mat={(th, "given"): (rc, out, read(fd + "/result.mat"))})
            finally:
                shutil.rmtree(d)
        return f
    keys, jobs = [], []
    for (k, n), l in sorted(lists.items()):
        for th in (1, 3) if n < 12 or ctx.thorough else (1 + n % 2,):
            keys.append((k, n))
            jobs.append((n ** 3 * len(l), job(n, l, th)))
    ctx.count("given_lists", len(keys))
    return [("given-%s-%d" % k, k[1], r) for k, r in zip(keys, parallel(jobs))]
