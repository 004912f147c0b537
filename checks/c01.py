"""C01: every listed sequence is valid; .qseq lists the same quadruples in the same order."""
from build import *
from searches import *


def run(ctx):
    binary = build_program()
    tn = lengths(ctx)
    res = run_matrix(ctx, binary, tn, had=False)
    ctx.extra["configurations"] = len(res)
    distinct = set()
    for k, r in res.items():
        t, n = k[0], k[1]
        ctx.traces += 1
        if r["rc"] != 0:
            ctx.violation("status " + name(k), "driver.sh fails: " + r["out"][-400:])
            continue
        files = [("result", t)] + ([("result-qts", "qts")] if t == "wts" else [])
        for f, ft in files:
            if not ctx.check(r[f + ".seq"] is not None and r[f + ".qseq"] is not None, "missing %s %s" % (f, name(k)),
                             "%s.seq or .qseq is missing" % f):
                continue
            ls = seqlines(r[f + ".seq"])
            qs = parse_qseq(r[f + ".qseq"])
            if qs is None:
                ctx.violation("qseq-format %s %s" % (f, name(k)), "unreadable .qseq file: " + r[f + ".qseq"][:300])
                continue
            can = ref_canon(ft, ls)
            ctx.check(len(qs) == len(ls), "qseq-count %s %s" % (f, name(k)), "%d quadruples for %d lines" % (len(qs), len(ls)))
            for i, (l, c) in enumerate(zip(ls, can)):
                ctx.transitions += 1
                distinct.add((ft, l))
                if c is None:
                    ctx.violation("decode %s %s" % (f, name(k)), "line %r of %s.seq does not decode to a quadruple" % (l, f))
                    continue
                ctx.check(c["n"] == n, "length %s %s" % (f, name(k)), "line %r has length %d, not %d" % (l, c["n"], n))
                ctx.check(c["ok"], "invalid %s %s" % (f, name(k)), "line %r of %s.seq is not a valid %s: %s" % (l, f, ft, c["quad"]))
                if i < len(qs):
                    ctx.check(qs[i] == c["quad"], "qseq-differs %s %s" % (f, name(k)),
                              "entry %d of %s.qseq is %s, but line %r decodes to %s" % (i, f, qs[i], l, c["quad"]))
                if n > 4 and k[2:] == ("WX", "psd"):
                    ctx.sample("%s -> %s" % (name(k), l))
    # the published results, as far as they go beyond the lengths searched
    ctx.states = len(distinct)
    ctx.check(ctx.states > 50, "vacuous", "only %d sequences were listed" % ctx.states)
    ctx.extra["lengths"] = {t: max(n for a, n in tn if a == t) for t in ("wts", "qts", "ws")}
    ctx.extra["exhaustive"] = True
