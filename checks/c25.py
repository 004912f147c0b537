"""C25: bounded argument lists, given to every script and command on a directory of results."""
import itertools
from build import *
from pipe import *

R = "./target/release/rust"
TYPES, MATCH = ("wts", "qts", "ws"), ("psd", "correlation")
# what a place of an argument list may hold; tokens that are neither good nor bad for a place are not judged there
GOOD = dict(type=lambda x: x in TYPES, n=lambda x: x.isascii() and x.isdigit(), int=lambda x: x.lstrip("-").isdigit() and x.count("-") <= 1 and not x[1:].count("-"),
            match=lambda x: x in MATCH, pairing=lambda x: x in PAIRINGS, pair=lambda x: x in ("1", "2"), kind=lambda x: x in ("hm", "qhm"))
BAD = dict(type=lambda x: x not in TYPES + ("its", "et1", "et2", "et3"), n=lambda x: not x.lstrip("+").isdigit(), int=lambda x: not x.lstrip("+-").isdigit(),
           match=lambda x: x not in MATCH, pairing=lambda x: False, strict=lambda x: x not in PAIRINGS, pair=lambda x: x not in ("1", "2"), kind=lambda x: x not in ("hm", "qhm"))
GOOD["strict"] = GOOD["pairing"]
RUST = {"pairs": "type n match pairing", "pairs_rowsum": "type n int int int int match pairing", "create": "type n int int int int strict",
        "pair_single": "type n int int int int match strict pair", "join": "type n", "convert": "kind type n", "qhm-all": "type n", "amicable": "n", "rowsums": "type n"}
RUST = {k: v.split() for k, v in RUST.items()}
SAMPLE = dict(type="wts", n="4", int="2", match="psd", pairing="WZ", strict="WZ", pair="1", kind="hm")
# scripts: name -> (flags, flags with an argument); all take a type and a length first
FLAGS = {"driver.sh": ("chsd", "p"), "pairs.sh": ("cds", "p"), "sortpairs.sh": ("s", "")}
TWO = ("join_pairs.sh", "convert_hm.sh", "convert_qhm.sh")
QUIET = ("countpairs.sh", "pair_file_cleanup.sh")
TOKENS = ["", "x", "-1", "1.5", "WTS", "wt", "4x", "-x", "wts", "4", "PSD", "WZ"]


def judge_rust(a):
    """True: to be refused; None: not judged"""
    if a[0] not in RUST:
        return True
    slots = RUST[a[0]]
    a = a[1:]
    if len(a) != len(slots):
        return None if a and len(a) > len(slots) else True
    return True if any(BAD[s](x) for s, x in zip(slots, a)) else None


def judge_flags(s, a):
    """Flags after the type and the length: 'bad', 'd' (bad, after pair files were to be deleted) or None"""
    plain, arg = FLAGS[s]
    i, d = 0, False
    while i < len(a):
        x = a[i]
        if len(x) < 2 or x[0] != "-" or x == "--":
            return None
        for j, c in enumerate(x[1:]):
            if c in arg:
                if x[2 + j:] or i + 1 < len(a):
                    if not x[2 + j:]:
                        i += 1
                    break
                return "d" if d else "bad"
            if c not in plain:
                return "d" if d else "bad"
            d = d or c == "d"
        i += 1
    return None


def snapshot(d):
    s = {}
    for p, ds, fs in os.walk(d):
        if p == d:
            ds[:] = [x for x in ds if x not in ("target", "bin", "tmp")]
        for x in ds:
            s[os.path.relpath(os.path.join(p, x), d) + "/"] = b""
        for f in fs:
            with open(os.path.join(p, f), "rb") as g:
                s[os.path.relpath(os.path.join(p, f), d)] = g.read()
    return s


def mutations(base, tokens):
    """Every argument list with one place left out, replaced or doubled"""
    for i in range(len(base)):
        yield base[:i] + base[i + 1:]
        for x in tokens:
            yield base[:i] + [x] + base[i + 1:]
    for i in range(len(base)):
        yield base[:i]


def invocations(thorough):
    """(command, kind): usage, refused, flags, flags-d, harmless"""
    seen = set()

    def once(c, k):
        t = tuple(c)
        if k and t not in seen:
            seen.add(t)
            yield c, k
    for s in list(FLAGS) + list(TWO) + list(QUIET):
        for h in [[]] + ([["help"], ["-h"], ["--help"], ["-h", "4"]] if s != "pair_file_cleanup.sh" else [["wts"], ["help"]]):
            yield from once(["./" + s] + h, "usage")
    yield from once(["python3", "collect_results.py"], "usage")
    yield from once([R], "usage")
    # the program
    for c, slots in RUST.items():
        base = [c] + [SAMPLE[s] for s in slots]
        todo = list(mutations(base, TOKENS))
        if thorough:
            todo = list(itertools.chain(todo, *(mutations(m, TOKENS[:8]) for m in todo if m)))
        for a in todo:
            if a:
                yield from once([R] + a, "refused" if judge_rust(a) else None)
    small = ["pairs", "join", "convert", "rowsums", "create", "x", "wts", "4", "hm", ""]
    for k in (1, 2, 3) if thorough else (1, 2):
        for a in itertools.product(small, repeat=k):
            yield from once([R] + list(a), "refused" if judge_rust(list(a)) else None)
    # the scripts: type and length
    types = [x for x in TOKENS if BAD["type"](x) and x != "-h"]
    lengths = [x for x in TOKENS if BAD["n"](x)]
    pairs = [(t, n) for t in types + ["wts"] for n in lengths + ["4", "6"] if t != "wts" or n not in ("4", "6")]
    for s in list(FLAGS) + list(TWO) + list(QUIET):
        for t, n in pairs:
            for f in ([[]] if s not in FLAGS else [[], ["-d", "-p", "WX"], ["-c"]] if s != "sortpairs.sh" else [[], ["-s"]]):
                yield from once(["./" + s, t, n] + f, "refused" if s in ("driver.sh", "pairs.sh") + TWO else "harmless")
        for t in types + ["wts"]:
            if t not in ("help", "-h", "--help") and s != "pair_file_cleanup.sh":
                yield from once(["./" + s, t], "refused" if s in FLAGS or s in TWO else "harmless")
    # flags, for a length with results, one with pairs only and a new one
    fl = ["-x", "-C", "-p", "-d", "-c", "WX", "-dx", "-P"]
    for s in FLAGS:
        for k in (1, 2, 3) if thorough else (1, 2):
            for f in itertools.product(fl, repeat=k):
                for t, n in (("wts", "4"), ("qts", "3"), ("ws", "6")):
                    j = judge_flags(s, list(f))
                    yield from once(["./" + s, t, n] + list(f), {"bad": "flags", "d": "flags-d", None: None}[j])
    for a in (["1", "x", "wts", "t"], ["x", "4", "wts", "t"], ["1", "4", "wts"], ["1", "4"], ["1"], ["1", "4", "wts", "t", "loud"], ["1.5", "4", "wts", "t"], ["1", "4", "wts", "t", "verbose", "x"]):
        yield from once(["python3", "collect_results.py"] + a, "harmless")


def run(ctx):
    binary = build_program()
    todo = list(invocations(ctx.thorough))
    d0 = rundir(binary)
    for c in (["./driver.sh", "wts", "4", "-h"], ["./pairs.sh", "qts", "3"], ["./pairs.sh", "ws", "5", "-c"], ["./sortpairs.sh", "ws", "5"], ["./driver.sh", "wts", "1"],
              [R, "create", "wts", "6", "0", "2", "2", "4", "WZ"]):
        rc, out = sh(d0, c)
        if not ctx.check(rc == 0, "start " + " ".join(c), "fails: " + out[-300:]):
            return
    shutil.copytree(d0 + "/results", d0 + "/keep")
    chunks = [todo[i::64] for i in range(64)]

    def job(cs):
        def f():
            out = []
            d = rundir(binary)
            shutil.copytree(d0 + "/keep", d + "/results")
            start = snapshot(d)
            for c, k in cs:
                rc, o = sh(d, c, timeout=120)
                now = snapshot(d)
                new = {x for x in now if x not in start}
                gone = {x for x in start if x not in now}
                diff = {x for x in start if x in now and start[x] != now[x]}
                out.append((rc, o, sorted(new), sorted(gone), sorted(diff)))
                if new or gone or diff:
                    for x in os.listdir(d):
                        if x not in ("target", "bin", "tmp") and os.path.isdir(d + "/" + x):
                            shutil.rmtree(d + "/" + x)
                    for x in new:
                        if "/" not in x:
                            os.unlink(d + "/" + x)
                    shutil.copytree(d0 + "/keep", d + "/results")
                    if set(x for x in gone | diff if not x.startswith("results/")):
                        break
            shutil.rmtree(d)
            return out
        return f
    kinds = {}
    for cs, res in zip(chunks, parallel([(1, job(cs)) for cs in chunks])):
        for (c, k), (rc, out, new, gone, diff) in zip(cs, res):
            kinds[k] = kinds.get(k, 0) + 1
            ctx.states += 1
            ctx.transitions += 1
            text = " ".join(x or "''" for x in c)
            say = out.strip()[-150:]
            ctx.check(rc >= 0 and rc != 124, "ends " + text, "`%s` does not end" % text)
            if k in ("refused", "flags", "flags-d") and not (c[0] == R and (len(c) == 1)):
                ctx.check(rc != 0, "status " + text, "`%s` is accepted: status 0, output: %s" % (text, say))
            if k != "harmless":
                ctx.check(bool(out.strip()) or rc and k != "usage", "message " + text, "`%s` says nothing" % text)
            if k == "usage":
                ctx.check(rc == 0, "usage " + text, "`%s`: status %d" % (text, rc))
            # pair files may go when their deletion was asked for, the results may not
            lost = [x for x in gone + diff if not (k == "flags-d" and "/rowsum_" in x)]
            if c[0] != R:
                lost = [x for x in lost if not x.endswith("result.log")]
            ctx.check(not lost, "changes " + text, "`%s` (status %d) changes or removes %s" % (text, rc, lost[:4]))
            # a refused search may leave the directory of its log; nothing else comes into being
            extra = [x for x in new if not (x.endswith("result.log") or x.endswith("/") and "rowsum" not in x)] if c[0] != R else [x for x in new if not (c[1:2] == ["create"] or c[1:2] == ["pair_single"]) or not x.endswith("/")]
            if k != "usage":
                ctx.check(not extra, "creates " + text, "`%s` (status %d) creates %s" % (text, rc, extra[:4]))
            else:
                ctx.check(not new, "creates " + text, "`%s` creates %s" % (text, new[:4]))
    for k, v in kinds.items():
        ctx.count("invocations_" + k.replace("-", "_"), v)
    ctx.check(kinds.get("refused", 0) > 300, "vacuous", "hardly any invocation was tried")
    for c, k in todo[:: max(1, len(todo) // 6)]:
        ctx.sample("%s: %s" % (k, " ".join(x or "''" for x in c)))
    ctx.traces = len(todo)
    ctx.extra["exhaustive"] = True
