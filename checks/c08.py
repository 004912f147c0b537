"""C08: the join of sorted pair files: harness on the join, and sort and join commands on made-up directories."""
import itertools
from build import *
from pipe import *

PAIR = {"WX": ("WX", "YZ"), "WY": ("WY", "XZ"), "WZ": ("WZ", "XY")}
# keys with the same number of entries, including prefixes of each other and negative numbers
KEYS = [["2_2", "2_23", "23_2", "-2_2", "2_-2", "22_2", "0_0", "3_2", "2_3", "-23_2"],
        ["8_12", "8_1", "80_1", "8_-1", "-8_1", "8_120", "12_8", "1_8", "0_1", "1_0"]]


def given(t, n):
    """Longer than what the reference enumerates: published sequences and those of data/long.txt"""
    l = [x.split() for x in read(VERIF + "/data/published.txt").split("\n")[:-1]]
    l = [x[2] for x in l if x[:2] == [t, str(n)]]
    return (l if t == "wts" or n < 22 else []) + ([symbols(q) for q in long_quadruples() if len(q[0]) == n] if t == "ws" or n > 21 else [])


def quads(t, n):
    if n >= LONG[t]:
        return [x["quad"] for x in ref_canon(t, given(t, n))]
    return [c.rstrip("~").split(",") for c in ref_classes(t, n)[0]]


def classes(t, n):
    return {x["canon"] for x in ref_canon(t, given(t, n))} if n >= LONG[t] else set(ref_classes(t, n)[0])


LONG = {"wts": 13, "qts": 11, "ws": 18}


def run(ctx):
    binary = build_program("C08")
    ctx.harness(binary)
    build_reference()
    # one made-up search: for each class of valid quadruples one or more lines with a key, some unmatched lines
    cases = []
    for t, n in [("wts", 8), ("wts", 10), ("qts", 7), ("qts", 9), ("ws", 9), ("ws", 10), ("ws", 13)] + (
            [("wts", 12), ("qts", 10), ("ws", 17)] if ctx.thorough else []):
        for pairing in PAIRINGS:
            for ki, keys in enumerate(KEYS):
                for rot in range(len(keys)) if ctx.thorough else (0, 3, 5, 7):
                    for ndirs in (1, 3):
                        cases.append((t, n, pairing, ki, rot, ndirs))
    for t, n in [("wts", 13), ("wts", 16), ("wts", 20), ("wts", 21), ("wts", 25), ("wts", 31), ("qts", 12), ("qts", 16), ("qts", 19), ("qts", 21), ("qts", 27),
                 ("ws", 18), ("ws", 19), ("ws", 21), ("ws", 25), ("ws", 26), ("ws", 30), ("ws", 31), ("ws", 37), ("wts", 37), ("qts", 37), ("ws", 54), ("wts", 49), ("qts", 51), ("ws", 63)]:
        for i, pairing in enumerate(PAIRINGS):
            cases.append((t, n, pairing, i % 2, i * 3 + n % 2, 1 + 2 * (i % 2)))

    def job(t, n, pairing, ki, rot, ndirs):
        def f():
            d = rundir(binary)
            fd = fdir(d, t, n)
            os.makedirs(fd)
            qs = quads(t, n)
            if t == "qts":  # of the two mirror images, the one that was classified
                qs = [q for q in qs]
            keys = KEYS[ki][rot:] + KEYS[ki][:rot]
            want = []
            pr = PAIR[pairing]
            for di in range(ndirs):
                x = fd + "/rowsum_%d_%d_%d_%d" % (di, 0, 0, 0)
                os.makedirs(x)
                seqs = {c: [] for c in "WXYZ"}
                fl = {0: [], 1: []}
                for i, q in enumerate(qs):
                    if i % ndirs != di:
                        continue
                    for c, s in zip("WXYZ", q):
                        # the sequence is not at the same index for all tags
                        for _ in range("WXYZ".index(c) + 1):
                            seqs[c].append("".join("+" if y == "-" else "-" for y in s) if t != "qts" else "+" * n)
                        seqs[c].append(s)
                    ix = {c: len(seqs[c]) - 1 for c in "WXYZ"}
                    key = keys[i % len(keys)]
                    for side in (0, 1):
                        fl[side].append("%s_:_%d_%d" % (key, ix[pr[side][0]], ix[pr[side][1]]))
                    want.append(q)
                    # lines without a partner
                    other = keys[(i + 3) % len(keys)]
                    if i + 3 >= len(qs) and i % 2:
                        fl[i % 2].append("%s_:_%d_%d" % (other + "7", 0, 0))
                for side in (0, 1):
                    with open(x + "/pair_%s.pair" % pr[side], "w") as g:
                        g.write("".join(l + "\n" for l in (fl[side] if (rot + side) % 2 else fl[side][::-1])))
                for c in "WXYZ":
                    with open(x + "/seq_%s.seq" % c, "w") as g:
                        g.write("".join(s + "\n" for s in seqs[c]))
            rc, out = sh(d, ["./sortpairs.sh", t, str(n)])
            srt = []
            for r, _, fs in os.walk(fd):
                for f in fs:
                    if f.endswith(".sorted"):
                        b = open(os.path.join(r, f), "rb").read().split(b"\n")[:-1]
                        if b != sorted(b):
                            srt.append(f)
            rc2, out2 = sh(d, ["./target/release/rust", "join", t, str(n)])
            got = lines(fd + "/result.seq")
            shutil.rmtree(d)
            return rc or rc2, out[-300:] + out2[-300:], srt, want, got
        return f
    res = parallel([(1, job(*c)) for c in cases])
    for c, (rc, out, srt, want, got) in zip(cases, res):
        ctx.traces += 1
        nm = "%s-%d-%s keys %d rotated %d, %d directories" % c
        t, n = c[0], c[1]
        if rc or got is None:
            ctx.violation("commands %s-%d-%s" % c[:3], nm + ": status %s: %s" % (rc, out))
            continue
        ctx.check(not srt, "sort-order %s-%d-%s" % c[:3], "%s: not in bytewise order after the sort step: %s" % (nm, srt))
        ctx.transitions += len(want)
        can = ref_canon(t, got)
        have = [x["canon"] for x in can if x]
        # the classes put in (all of the length): each has to be found
        exp = classes(t, n)
        if t == "qts":
            # a canonical form carries a sign that the printed quadruple does not: compare without it
            exp = {e.rstrip("~") for e in exp}
            have = [h.rstrip("~") for h in have]
        ctx.check(all(x and x["ok"] for x in can), "cli-invalid %s-%d-%s" % c[:3], "%s: an invalid sequence is listed" % nm)
        miss = exp - set(have)
        ctx.check(not miss, "cli-missing %s-%d-%s" % c[:3], "%s: %d of %d matches are not found, e.g. %s" % (nm, len(miss), len(exp), sorted(miss)[:1]))
    ctx.states += len(cases)
    ctx.extra["exhaustive"] = True
