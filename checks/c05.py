"""C05: rowsum decompositions: the harness decides the lists, the files are compared with the lists."""
from build import *
from pipe import *


def run(ctx):
    binary = build_program("C05")
    ctx.harness(binary)
    p = os.path.join(scratch(), "harness_wd", "rowsums.txt")
    want = [l.split() for l in (lines(p) or [])]
    d = rundir(binary)

    def job(w):
        t, n = w[0], int(w[1])

        def f():
            fd = fdir(d, t, n)
            os.makedirs(fd)
            rc, out = sh(d, ["./target/release/rust", "rowsums", t, str(n)])
            return rc, out, lines(fd + "/rowsums.quad")
        return f
    for w, (rc, out, got) in zip(want, parallel([(1, job(w)) for w in want])):
        ctx.traces += 1
        nm = w[0] + " " + w[1]
        if not ctx.check(rc == 0 and got is not None, "rowsums-command " + nm, "status %s: %s" % (rc, out[-300:])):
            continue
        ctx.transitions += len(got)
        exp = [x.split(",") for x in w[2:]]
        ctx.check([l.split() for l in got] == exp, "rowsums-file " + nm,
                  "the file has %s, the list is %s" % (got[:5], exp[:5]))
    ctx.extra["exhaustive"] = True
    ctx.check(len(want) > 150 or ctx.viol, "vacuous", "no lists")
