"""C03: no two listed sequences are equivalent, and the reported counts are the numbers of lines."""
from build import *
from searches import *


def run(ctx):
    binary = build_program()
    tn = lengths(ctx)
    res = run_matrix(ctx, binary, tn, had=False)
    for k, r in res.items():
        t, n = k[0], k[1]
        ctx.traces += 1
        if r["rc"] != 0:
            ctx.violation("status " + name(k), "driver.sh fails: " + r["out"][-400:])
            continue
        for f, ft in [("result", t)] + ([("result-qts", "qts")] if t == "wts" else []):
            ls = seqlines(r[f + ".seq"]) or []
            can = ref_canon(ft, ls)
            seen = {}
            for l, c in zip(ls, can):
                ctx.states += 1
                ctx.transitions += len(seen)
                key = c["canon"] if c else l
                if key in seen:
                    ctx.violation("duplicate %s %s" % (f, name(k)), "%r and %r of %s.seq are equivalent" % (seen[key], l, f))
                seen[key] = l
            for src in ("log", "out"):
                rep = [int(x) for x in re.findall(r"Found (\d+) %s after reducing to equivalence" % ft, r[src] or "")]
                ctx.check(rep == [len(ls)], "count %s %s" % (f, name(k)),
                          "the log reports %s %s after reducing to equivalence, %s.seq has %d lines" % (rep, ft, f, len(ls)))
            if n > 8 and k[2:] == ("WX", "psd"):
                ctx.sample("%s: %d lines of %s.seq in %d classes" % (name(k), len(ls), f, len(seen)))
    ctx.check(ctx.transitions > 100, "vacuous", "hardly any pair of sequences was compared")
    ctx.extra["configurations"] = len(res)
    ctx.extra["exhaustive"] = True
