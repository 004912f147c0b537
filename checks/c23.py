"""C23: the list derived in wts mode is that of a direct qts search; every listed QT sequence is Williamson-type."""
import itertools
from build import *
from searches import *


def run(ctx):
    binary = build_program()
    direct = 11 if ctx.thorough else 10
    derived = 14 if ctx.thorough else 12
    tn = [("wts", n) for n in range(1, derived + 1)] + [("qts", n) for n in range(1, direct + 1)]
    cfg = [(p, m) for p in PAIRINGS for m in MATCHES]

    def job(k):
        def f():
            t, n, p, m = k
            d = rundir(binary)
            try:
                rc, out = driver(d, t, n, p, m, had=False, timeout=800)
                r = dict(rc=rc, out=out, list=lines(fdir(d, t, n) + ("/result-qts.seq" if t == "wts" else "/result.seq")))
                if t == "qts" and rc == 0:
                    r["amicable"] = amicable(d, n)
                    r["intact"] = lines(fdir(d, t, n) + "/result.seq") == r["list"]
                return r
            finally:
                shutil.rmtree(d)
        return f
    # the longest lengths in one configuration each: C04 compares the configurations
    keys = [(t, n, p, m) for t, n in tn for i, (p, m) in enumerate(cfg) if n < 9 or i == n % 6 or ctx.thorough and n < 11]
    res = dict(zip(keys, parallel([(cost(k[0], k[1]), job(k)) for k in keys])))
    lists = {}
    for k, r in res.items():
        ctx.traces += 1
        if ctx.check(r["rc"] == 0, "status " + name(k), lambda: "driver.sh fails: " + r["out"][-300:]):
            lists.setdefault(k[:2], []).append((k, r["list"] or []))
        if "amicable" in r:
            rc, out = r["amicable"]
            ctx.transitions += 1
            ctx.check(rc == 0, "amicable " + name(k), lambda: "amicable %d fails on the result: %s" % (k[1], out[-300:]))
            ctx.check(r["intact"], "amicable-intact " + name(k), "amicable changes the result")
    for n in range(1, derived + 1):
        qts = lists.get(("qts", n), [])
        wts = lists.get(("wts", n), [])
        uniq = {}
        for k, l in qts + wts:
            uniq.setdefault(tuple(l), []).append(k)
        canon = {}
        for l, ks in uniq.items():
            q, w = ref_canon("qts", list(l)), ref_canon("wts", list(l))
            ctx.states += len(l)
            for s, a, b in zip(l, q, w):
                for kind, c in (("QT", a), ("Williamson-type", b)):
                    ctx.check(c and c["ok"] and c["n"] == n, "type %s %s" % (name(ks[0]), s), "%s lists %s, which is not a %s sequence of length %d" % (name(ks[0]), s, kind, n))
            cl = [c["canon"] for c in q if c]
            ctx.check(len(set(cl)) == len(cl), "twice " + name(ks[0]), "%s lists a QT class more than once: %d lines, %d classes" % (name(ks[0]), len(cl), len(set(cl))))
            for k in ks:
                canon[k] = set(cl)
        for (k, l), (j, m) in itertools.product(wts, qts):
            ctx.transitions += 1
            ctx.check(canon[k] == canon[j], "classes %s %s" % (name(k), name(j)),
                      lambda: "%s derives %d classes, %s finds %d; in one only: %s" % (name(k), len(canon[k]), name(j), len(canon[j]), sorted(canon[k] ^ canon[j])[:1]))
            ctx.check(sorted(l) == sorted(m), "representatives %s %s" % (name(k), name(j)),
                      lambda: "%s lists other representatives than %s: %s" % (name(k), name(j), sorted(set(l) ^ set(m))[:2]))
        want = set(ref_classes("qts", n)[0])
        for k, l in wts:
            ctx.transitions += len(want)
            ctx.check(canon[k] == want, "reference " + name(k), lambda: "%s derives %d classes, the reference has %d" % (name(k), len(canon[k]), len(want)))
        if n > 6:
            ctx.sample("length %d: %d classes in %d wts and %d qts searches" % (n, len(want), len(wts), len(qts)))
    given(ctx, binary)
    ctx.check(sum(len(l) for v in lists.values() for _, l in v) > 100, "vacuous", "hardly any sequence was found")
    ctx.extra["searches"] = len(keys)
    ctx.extra["exhaustive"] = True


def amicable(d, n):
    return sh(d, ["./target/release/rust", "amicable", str(n)])


def given(ctx, binary):
    """The command on lists written by hand: succeeds just when every sequence is Williamson-type"""
    keys = []
    for n in range(1, 6):
        good = ref_classes("qts", n)[0]
        good = [c["quad"] for c in ref_canon("qts", good) if c] and good
        text = [t for t in "+-iIjJkK"]
        bad = ["".join(x) for x in itertools.product(text, repeat=n)] if n <= 3 else []
        for l in [good, good[::-1], good + good, []] + [[g] for g in good]:
            keys.append((n, l, True))
        v = ref_canon("wts", bad)
        for s, c in list(zip(bad, v)):
            keys.append((n, [s], bool(c and c["ok"])))
            if n <= 2:
                keys.append((n, good + [s], bool(c and c["ok"])))
        # every sequence that is valid, followed by one that is not: it shares each component with one before it
        every = [s for s, c in zip(bad, v) if c and c["ok"]]
        ends = [s for s, c in zip(bad, v) if c and not c["ok"]]
        for i, s in enumerate(ends):
            if n < 3 or ctx.thorough or s[0] in "+j":
                keys.append((n, every + [s] if i % 2 else [s] + every, False))
    # published sequences of longer lengths, and each with one entry changed
    pub = {}
    for x in read(VERIF + "/data/published.txt").split("\n")[:-1]:
        t, n, q = x.split()
        pub.setdefault(int(n), []).append(q)
    for n, l in sorted(pub.items()):
        if n > 5:
            keys += [(n, l, True), (n, l[::-1], True)]
            for i in range(n):
                x = l[i % len(l)]
                x = x[:i] + {"+": "-", "-": "+"}.get(x[i], "+") + x[i + 1:]
                if not ref_canon("wts", [x])[0]["ok"]:
                    keys.append((n, l[:3] + [x] if i % 2 else [x] + l[:3], False))
    # long sequences, and each with one entry changed
    for q in long_quadruples():
        n = len(q[0])
        if n > 63 and not ctx.thorough:
            continue
        l = [q, [s[1:] + s[:1] for s in q], [q[1], q[2], q[0], q[3]]]
        keys.append((n, [symbols(x) for x in l], True))
        for i in (0, 1, n // 2):
            bad = [list(s) for s in q]
            bad[i % 4][(n - 1) * (i % 2) + i * (1 - i % 2)] *= -1
            if not is_wts(bad):
                keys.append((n, [symbols(x) for x in (q, bad)][::(-1) ** i], False))
    chunks = [keys[i::32] for i in range(32)]

    def job(ks):
        def f():
            d = rundir(binary)
            try:
                out = []
                for n, l, ok in ks:
                    fd = fdir(d, "qts", n)
                    os.makedirs(fd, exist_ok=True)
                    with open(fd + "/result.seq", "w") as g:
                        g.write("".join(x + "\n" for x in l))
                    out.append(amicable(d, n))
                return out
            finally:
                shutil.rmtree(d)
        return f
    for ks, out in zip(chunks, parallel([(1, job(ks)) for ks in chunks])):
        for (n, l, ok), (rc, o) in zip(ks, out):
            ctx.states += 1
            ctx.transitions += 1
            ctx.check((rc == 0) == ok, "given %d %s" % (n, ",".join(l)),
                      lambda: "amicable %d on %s: status %d, but the list %s" % (n, l[:4], rc, "is Williamson-type" if ok else "is not: " + o[-200:]))
    ctx.count("given_lists", len(keys))
