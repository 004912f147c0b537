"""C02: every equivalence class of the reference enumeration is represented in the result files."""
from build import *
from searches import *


def run(ctx):
    binary = build_program()
    tn = lengths(ctx)
    res = run_matrix(ctx, binary, tn, had=False)
    want, st = {}, subprocess.run([build_reference(), "selftest", "5"], stdout=subprocess.PIPE, text=True)
    if st.returncode:
        raise BuildError("the reference is inconsistent")
    ctx.extra["reference_selftest"] = st.stdout.strip()
    jobs = sorted(set(tn) | {("qts", n) for t, n in tn if t == "wts"})
    for (t, n), (cl, visited) in zip(jobs, parallel([(cost(t, n), (lambda t=t, n=n: ref_classes(t, n))) for t, n in jobs])):
        want[t, n] = set(cl)
        ctx.states += visited
    ctx.extra["classes_expected"] = {"%s-%d" % k: len(v) for k, v in sorted(want.items())}
    for k, r in res.items():
        t, n = k[0], k[1]
        ctx.traces += 1
        if r["rc"] != 0:
            ctx.violation("status " + name(k), "driver.sh fails: " + r["out"][-400:])
            continue
        for f, ft in [("result", t)] + ([("result-qts", "qts")] if t == "wts" else []):
            ls = seqlines(r[f + ".seq"]) or []
            got = {c["canon"] for c in ref_canon(ft, ls) if c and c["ok"] and c["n"] == n}
            ctx.transitions += len(want[ft, n])
            miss = want[ft, n] - got
            ctx.check(not miss, "missed %s %s" % (f, name(k)),
                      lambda: "%d of %d classes are not in %s.seq, e.g. that of %s" % (len(miss), len(want[ft, n]), f, sorted(miss)[0]))
            if n > 8 and k[2:] == ("WX", "psd"):
                ctx.sample("%s: %d classes, e.g. %s" % (name(k), len(want[ft, n]), min(want[ft, n])))
    ctx.check(sum(len(v) for v in want.values()) > 100, "vacuous", "hardly any class is expected")
    ctx.extra["configurations"] = len(res)
    ctx.extra["exhaustive"] = True
