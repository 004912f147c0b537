"""Runs searches with the real scripts and binary, each in a directory of its own."""
import multiprocessing, os, re, shutil, subprocess
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import itertools, threading
from build import RUST, SCRIPTS, scratch, build_reference

PAIRINGS = ["WX", "WY", "WZ"]
MATCHES = ["psd", "correlation"]
_n = itertools.count()


_made = threading.Lock()


def template():
    """The scripts and a stub of cargo, written once: a file that is being written when another thread starts a process
    cannot be executed while that process holds it open (text file busy)"""
    t = os.path.join(scratch(), "template")
    with _made:
        if not os.path.isdir(t):
            os.makedirs(t + ".new/bin")
            for s in SCRIPTS:
                if os.path.exists(os.path.join(RUST, s)):
                    shutil.copy2(os.path.join(RUST, s), os.path.join(t + ".new", s))
            with open(t + ".new/bin/cargo", "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(t + ".new/bin/cargo", 0o755)
            os.rename(t + ".new", t)
    return t


def rundir(binary, name=None):
    t = template()
    d = os.path.join(scratch(), "run", name or "r%d" % next(_n))
    os.makedirs(d + "/target/release")
    os.makedirs(d + "/bin")
    for s in os.listdir(t):
        if s != "bin":
            os.link(t + "/" + s, d + "/" + s)
    os.link(t + "/bin/cargo", d + "/bin/cargo")
    os.link(binary, d + "/target/release/rust")
    return d


def env(d, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_"):
            del e[k]
    e.update(PATH=d + "/bin:" + e.get("PATH", "/usr/bin:/bin"), RAYON_NUM_THREADS="1", LC_ALL="C.UTF-8")
    e.update(kw)
    return e


def sh(d, cmd, timeout=600, **kw):
    """Runs a command (list, or string for bash) in a run directory; returns (status, output)"""
    if isinstance(cmd, str):
        cmd = ["bash", "-c", cmd]
    try:
        p = subprocess.run(cmd, cwd=d, env=env(d, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1, "TIMEOUT " + str(cmd)


def driver(d, t, n, pairing="WZ", match="psd", had=True, extra=(), **kw):
    a = ["./driver.sh", t, str(n), "-p", pairing]
    if match == "correlation":
        a.append("-c")
    if had:
        a.append("-h")
    return sh(d, a + list(extra), **kw)


def fdir(d, t, n):
    return "%s/results/pairs/%s/find_%d" % (d, t, n)


def lines(path):
    try:
        with open(path) as f:
            s = f.read()
    except OSError:
        return None
    return s.split("\n")[:-1] if s.endswith("\n") else (s.split("\n") if s else [])


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return None


def parallel(jobs, workers=8):
    """jobs: list of (cost, function); runs the most expensive first; results in the given order"""
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][0])
    with ThreadPoolExecutor(workers) as ex:
        fut = {i: ex.submit(jobs[i][1]) for i in order}
        return [fut[i].result() for i in range(len(jobs))]


_work = None


def _call(job):
    return _work(*job)


def forked(f, jobs, workers=8):
    """Results of f(*job) for each job, computed in processes forked from this one"""
    global _work
    _work = f
    with ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork")) as ex:
        return list(ex.map(_call, jobs, chunksize=max(1, min(8, len(jobs) // 16))))


def cost(t, n):
    return {"wts": 4.0 ** n, "qts": 6.0 ** n, "ws": 2.0 ** n}[t] * (2 if n % 2 == 0 else 1)


# ---- the reference -----------------------------------------------------------------------

_cls = {}
_lock = threading.Lock()


def ref_classes(t, n):
    with _lock:
        ref = build_reference()
    k = (t, n)
    if k not in _cls:
        out = subprocess.run([ref, "classes", t, str(n)], stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")
        visited = int(re.match(r"#visited (\d+)", out[0]).group(1))
        _cls[k] = ([l.split()[0] for l in out[1:] if l], visited)
    return _cls[k]


def ref_canon(t, seqs):
    """For each quaternion string: None (not decodable) or dict(ok, canon, n, quad)"""
    with _lock:
        ref = build_reference()
    if not seqs:
        return []
    out = subprocess.run([ref, "canon", t], input="".join(s + "\n" for s in seqs), stdout=subprocess.PIPE, text=True,
                         check=True).stdout.split("\n")[:-1]
    r = []
    for l in out:
        f = l.split()
        r.append(None if len(f) == 1 else dict(ok=f[0] == "true", canon=f[1], n=int(f[2]), quad=f[3].split(",")))
    assert len(r) == len(seqs)
    return r


def ref_hadamard(seqs, mats):
    """Classes of the matrices of sequences and of matrices (lists of strings of + and -); None for what is no Hadamard matrix"""
    with _lock:
        ref = build_reference()
    inp = "".join("s %s\n" % s for s in seqs) + "".join("m %s\n" % "/".join(m) for m in mats)
    out = subprocess.run([ref, "hm"], input=inp, stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")[:-2]
    assert len(out) == len(seqs) + len(mats)
    out = [None if x == "-" else int(x) for x in out]
    return out[:len(seqs)], out[len(seqs):]


def ref(*args):
    """Output of a command of the reference"""
    with _lock:
        r = build_reference()
    return subprocess.run([r] + [str(x) for x in args], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


_letters = {}


def letter(w, x, y, z):
    """The symbol of the quaternion (-1+i+j+k)/2 (w+xi+yj+zk)/2, for entries +-1"""
    if not _letters:
        def mul(a, b):
            return (a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
                    a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0])
        unit = {"+": (2, 0, 0, 0), "i": (0, 2, 0, 0), "j": (0, 0, 2, 0), "k": (0, 0, 0, 2), "q": (1, 1, 1, 1)}
        for c, u in (("x", "i"), ("y", "j"), ("z", "k")):
            unit[c] = tuple(v // 2 for v in mul(unit["q"], unit[u]))
        neg = {"+": "-"}
        by = {}
        for c, u in unit.items():
            by[u] = c
            by[tuple(-v for v in u)] = neg.get(c, c.upper())
        for m in range(16):
            q = tuple(-1 if m >> i & 1 else 1 for i in range(4))
            _letters[q] = by[tuple(v // 2 for v in mul((-1, 1, 1, 1), q))]
    return _letters[(w, x, y, z)]


def long_quadruples():
    """data/long.txt: valid symmetric quadruples of lengths up to 126, as lists of +-1"""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "long.txt")) as f:
        return [[[1 if c == "+" else -1 for c in s] for s in l.split()[1].split(",")] for l in f]


def symbols(quad):
    return "".join(letter(*e) for e in zip(*quad))


def is_wts(quad):
    """complementary and amicable, from the definitions"""
    n = len(quad[0])

    def c(a, b, t):
        return sum(x * b[i + t - n] for i, x in enumerate(a))
    return all(sum(c(s, s, t) for s in quad) == 0 for t in range(1, n)) and \
        all(c(quad[i], quad[j], t) == c(quad[j], quad[i], t) for i in range(4) for j in range(i) for t in range(1, n))


def parse_mat(text):
    """The matrices of a .mat file as rows of + and -; None for a line not in the documented form"""
    r = []
    for l in text.split("\n"):
        if not l.strip():
            continue
        m = re.fullmatch(r"M := Matrix\(\[(\[[-1,]*\](?:,\[[-1,]*\])*)\]\);", l.strip())
        rows = None
        if m:
            rows = [x.split(",") for x in m.group(1)[1:-1].split("],[")]
            if any(y not in ("1", "-1") for x in rows for y in x):
                rows = None
        r.append(rows and ["".join("+" if y == "1" else "-" for y in x) for x in rows])
    return r


def parse_qseq(text):
    """The quadruples of a .qseq file, or None if it is not in the documented form"""
    r = []
    ls = [l.strip() for l in text.split("\n") if l.strip()]
    i = 0
    while i < len(ls):
        if ls[i] != "[" or i + 5 >= len(ls) or ls[i + 5] != "]":
            return None
        q = []
        for l in ls[i + 1:i + 5]:
            m = re.fullmatch(r"\[([+-]*)\]", l)
            if not m:
                return None
            q.append(m.group(1))
        r.append(q)
        i += 6
    return r
