"""C06: generated sequences (harness) and the seq_*.seq files of real searches with the indices of the pairs."""
import re
from build import *
from searches import *


def all_with(s, n, sym):
    """The +-1 sequences of length n and sum s, as strings (symmetric ones if sym)"""
    out = set()
    for m in range(1 << n):
        if n - 2 * bin(m).count("1") == s:
            v = "".join("-" if m >> i & 1 else "+" for i in range(n))
            if not sym or all(v[i] == v[n - i] for i in range(1, n)):
                out.add(v)
    return out


_cache = {}


def expected(s, n, sym):
    k = (s, n, sym)
    if k not in _cache:
        _cache[k] = all_with(s, n, sym)
    return _cache[k]


def paf(v):
    n = len(v)
    a = [1 if c == "+" else -1 for c in v]
    return tuple(sum(a[i] * a[(i + t) % n] for i in range(n)) for t in range(1, n // 2 + 1))


def run(ctx):
    binary = build_program("C06")
    ctx.harness(binary)
    lim = {"wts": 11, "qts": 9, "ws": 14} if not ctx.thorough else {"wts": 13, "qts": 11, "ws": 17}
    tn = [(t, n) for t in lim for n in range(1, lim[t] + 1)]

    def job(t, n, p, m):
        def f():
            d = rundir(binary)
            rc, out = sh(d, ["./pairs.sh", t, str(n), "-p", p] + (["-c"] if m == "correlation" else []))
            fd = fdir(d, t, n)
            r = dict(rc=rc, out=out, dirs={})
            for x in sorted(os.listdir(fd)) if os.path.isdir(fd) else []:
                if os.path.isdir(fd + "/" + x):
                    r["dirs"][x] = {f: lines(fd + "/" + x + "/" + f) for f in os.listdir(fd + "/" + x)}
            shutil.rmtree(d)
            return r
        return f
    keys = [(t, n, p, m) for t, n in tn for p in PAIRINGS for m in MATCHES]
    res = parallel([(cost(k[0], k[1]), job(*k)) for k in keys])
    for k, r in zip(keys, res):
        t, n, p, m = k
        ctx.traces += 1
        if r["rc"]:
            ctx.violation("status " + name(k), r["out"][-300:])
            continue
        for x, files in r["dirs"].items():
            nm = name(k) + " " + x
            mt = re.fullmatch(r"rowsum_(-?\d+)_(-?\d+)_(-?\d+)_(-?\d+)", x)
            if not mt:
                continue
            ctx.states += 1
            rs = dict(zip("WXYZ", map(int, mt.groups())))
            seqs = {}
            for tag in "WXYZ":
                l = files.get("seq_%s.seq" % tag)
                if not ctx.check(l is not None, "no-file " + nm, "seq_%s.seq is missing" % tag):
                    continue
                seqs[tag] = l
                ctx.transitions += len(l)
                e = expected(rs[tag], n, t == "ws")
                ctx.check(len(set(l)) == len(l), "repeated " + nm, "seq_%s.seq lists a sequence twice" % tag)
                ctx.check(set(l) == e, "wrong-set " + nm, "seq_%s.seq: missing %s, too many %s" % (
                    tag, sorted(e - set(l))[:3], sorted(set(l) - e)[:3]))
            if len(seqs) < 4:
                continue
            # indices: within a pair file, the autocorrelation part of the keys must be a function of (and, together
            # with the cross-correlations, determined by) the sums of the autocorrelations of the indexed sequences
            for f, l in files.items():
                mt = re.fullmatch(r"pair_([WXYZ])([WXYZ])\.pair(\.sorted)?", f)
                if not mt or l is None:
                    continue
                a, b = seqs[mt.group(1)], seqs[mt.group(2)]
                by = {}
                for line in l:
                    key, _, idx = line.rpartition(":_")
                    try:
                        i, j = map(int, idx.split("_"))
                        u, v = a[i], b[j]
                    except (ValueError, IndexError):
                        ctx.violation("index " + nm, "line %r of %s has no valid indices" % (line, f))
                        break
                    ctx.count("pair_lines")
                    s = tuple(map(sum, zip(pafc(u), pafc(v))))
                    o = by.setdefault(key, s)
                    if o != s:
                        ctx.violation("index-meaning " + nm, "lines of %s with key %s point to sequences with different autocorrelations %s and %s" % (f, key, o, s))
                        break
                if t != "qts":
                    inv = {}
                    for key, s in by.items():
                        if inv.setdefault(s, key) != key:
                            ctx.violation("index-meaning " + nm, "the autocorrelations %s appear under two keys of %s" % (s, f))
                            break
    ctx.check(ctx.extra.get("pair_lines", 0) > 1000, "vacuous", "hardly any pairs")
    ctx.extra["exhaustive"] = True
    ctx.sample("%d searches, %d pair lines resolved through their indices" % (len(keys), ctx.extra.get("pair_lines", 0)))


_pc = {}


def pafc(v):
    r = _pc.get(v)
    if r is None:
        r = _pc[v] = paf(v)
    return r
