"""C07: pair files after pairs.sh and sortpairs.sh against all pairs of sequences of each decomposition."""
import re, subprocess
from build import *
from searches import *
import pipe


def stage(d, t, n, p, m, single):
    if not single:
        yield ["./pairs.sh", t, str(n), "-p", p] + (["-c"] if m == "correlation" else [])
    else:
        os.makedirs(fdir(d, t, n))
        yield ["./target/release/rust", "rowsums", t, str(n)]
        for l in lines(fdir(d, t, n) + "/rowsums.quad") or []:
            for k in "12":
                yield ["./target/release/rust", "pair_single", t, str(n)] + l.split() + [m, p, k]


def run(ctx):
    binary = build_program("C07")
    ref = build_reference()
    ctx.harness(binary)
    lim = {"wts": 12, "qts": 10, "ws": 17} if not ctx.thorough else {"wts": 13, "qts": 11, "ws": 18}
    tn = [(t, n) for t in lim for n in range(1, lim[t] + 1)]
    keys = [(t, n, p, m, s) for t, n in tn for p in PAIRINGS for m in MATCHES for s in (False, True)
            if not s or n <= lim[t] - 2]

    def job(t, n, p, m, single):
        def f():
            d = rundir(binary)
            try:
                for cmd in stage(d, t, n, p, m, single):
                    rc, out = sh(d, cmd)
                    if rc:
                        return ["BAD status %s: %s" % (" ".join(cmd), out[-300:])]
                fd = fdir(d, t, n)
                before = {}
                for x in os.listdir(fd):
                    for f in os.listdir(fd + "/" + x) if os.path.isdir(fd + "/" + x) else []:
                        if f.endswith(".pair"):
                            before[x + "/" + f] = lines(fd + "/" + x + "/" + f)
                rc, out = sh(d, ["./sortpairs.sh", t, str(n)])
                bad = []
                if rc:
                    bad.append("BAD status sortpairs.sh: " + out[-300:])
                for f, l in before.items():
                    got = lines(fd + "/" + f + ".sorted")
                    if got is None or sorted(got) != sorted(l):
                        bad.append("BAD sort %s: the sorted file has not the lines of the pair file" % f)
                o = subprocess.run([ref, "pairs", t, str(n), p, fd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if o.returncode:
                    raise Exception(o.stdout[-1000:])
                return bad + o.stdout.split("\n")[:-1]
            finally:
                shutil.rmtree(d)
        return f
    for k, out in zip(keys, parallel([(cost(k[0], k[1]), job(*k)) for k in keys])):
        ctx.traces += 1
        nm = "%s-%d-%s-%s" % k[:4] + ("-single" if k[4] else "")
        for l in out:
            m = re.match(r"BAD (\S+) ?(.*)", l)
            if m:
                ctx.violation("%s %s" % (m.group(1), nm), "%s: %s" % (nm, m.group(2)))
        m = re.match(r"pairs (\d+) lines (\d+) quads (\d+) extendable (\d+)", out[-1])
        if m:
            ctx.states += int(m.group(1))
            ctx.transitions += int(m.group(2))
            ctx.count("valid_quadruples", int(m.group(3)))
            ctx.count("extendable_pairs", int(m.group(4)))
            if k[1] >= 6:
                ctx.sample(nm + ": " + out[-1])
    ctx.check(ctx.extra.get("extendable_pairs", 0) > 1000, "vacuous", "hardly any extendable pairs")
    ctx.extra["exhaustive"] = True
