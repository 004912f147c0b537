"""The matrix of searches shared by several checks."""
import os
from pipe import *

# (type, longest length) of the searches run in all six configurations
QUICK = {"wts": 12, "qts": 10, "ws": 19}
QUICK_SKIP = {("ws", 18)}  # 20 s a search: only in the thorough tier
DEEP = {"wts": 14, "qts": 11, "ws": 20}
# longer ones, in two configurations only
MORE = [("wts", 13), ("ws", 20), ("ws", 21)]
MORE_DEEP = [("wts", 15), ("qts", 12), ("ws", 21), ("ws", 22), ("ws", 23)]


def lengths(ctx, quick=None, deep=None):
    b = dict(DEEP, **(deep or {})) if ctx.thorough else dict(QUICK, **(quick or {}))
    return [(t, n) for t in ("wts", "qts", "ws") for n in range(1, b[t] + 1)
            if ctx.thorough or (t, n) not in QUICK_SKIP] + (MORE_DEEP if ctx.thorough else MORE)


def run_matrix(ctx, binary, tn, configs=None, had=True, keep_pairs=False, after=None):
    """Runs driver.sh for each (type, length) and configuration. Returns {(t,n,pairing,match): result};
    `after(d, key)` is called in the run directory before it is removed."""
    configs = configs or [(p, m) for p in PAIRINGS for m in MATCHES]
    more = MORE_DEEP if MORE_DEEP[0] in tn else MORE
    keys = [(t, n, p, m) for (t, n) in tn for i, (p, m) in enumerate(configs) if (t, n) not in more or i % 3 == n % 3]

    def job(k):
        def f():
            t, n, p, m = k
            d = rundir(binary)
            rc, out = driver(d, t, n, p, m, had=had, timeout=800)
            fd = fdir(d, t, n)
            r = dict(rc=rc, out=out, log=read(fd + "/result.log"))
            for x in ("result.seq", "result.qseq", "result-qts.seq", "result-qts.qseq", "result.mat", "result.qhm"):
                r[x] = read(fd + "/" + x)
            if after:
                r["after"] = after(d, k)
            shutil.rmtree(d)
            return r
        return f
    res = parallel([(cost(k[0], k[1]), job(k)) for k in keys])
    return dict(zip(keys, res))


def name(k):
    return "%s-%d-%s-%s" % k


def seqlines(text):
    return None if text is None else text.split("\n")[:-1] if text.endswith("\n") else (text.split("\n") if text else [])
