"""Builds the program under test from /repo's working tree, in a scratch directory.

The dependencies compiled by the repository's own build are reused (hard links) when they
are there; otherwise cargo compiles them from its offline cache."""
import os, re, shutil, subprocess, sys, tempfile, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # the override is for trying planted bugs in a scratch copy
RUST = REPO + "/rust"
SCRIPTS = ["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh",
           "countpairs.sh", "pair_file_cleanup.sh", "collect_results.py"]

_scratch = None


def scratch():
    """The scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(2))
    return _scratch


def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    return env


def _seed_target(dst):
    """Hard-links the dependencies already compiled in /repo/rust/target/debug (not the crate itself)."""
    src = RUST + "/target/debug"
    if not os.path.isdir(src + "/deps"):
        return
    for sub in (".fingerprint", "build", "deps"):
        if not os.path.isdir(os.path.join(src, sub)):
            return
        os.makedirs(os.path.join(dst, "debug", sub))
        names = [x for x in os.listdir(os.path.join(src, sub)) if not x.startswith("rust-")]
        paths = [os.path.join(src, sub, x) for x in names]
        if not paths:
            continue
        to = os.path.join(dst, "debug", sub)
        for i in range(0, len(paths), 200):
            chunk = paths[i:i + 200]
            if subprocess.run(["cp", "-al"] + chunk + [to], stderr=subprocess.DEVNULL).returncode:
                subprocess.run(["cp", "-a"] + chunk + [to], check=True)


left_out = []  # parts of harnesses that had to be left out, for the evidence


def _without(text, errors):
    """The harness without its optional parts that have errors: lines marked `//opt` (replaced by what follows
    `//opt:`), blocks from `//[opt` to `//]`; if an error is elsewhere, everything when it starts with `//opt-file`."""
    L = text.split("\n")
    for e in errors:
        i = e - 1
        m = re.search(r"//opt(?::(.*))?$", L[i])
        if m and i:
            L[i] = (m.group(1) or "").rstrip()
            continue
        a = next((j for j in range(i, -1, -1) if re.match(r" *//[\[\]]", L[j])), None)
        b = next((j for j in range(i, len(L)) if re.match(r" *//[\[\]]", L[j])), None)
        if a is not None and b is not None and L[a].strip() == "//[opt" and L[b].strip() == "//]":
            L[a:b + 1] = [""] * (b - a + 1)
        elif L[0].strip() == "//opt-file":
            return "use super::kit::*; pub fn main() { Kit::new().done(); }\n"
    return "\n".join(L)


def build_program(check=None, debug_assertions=False):
    """Returns the path of the binary. With `check`, the harness of that check is compiled in (and runs
    when VERIF_OUT is set); the binary is the ordinary program otherwise."""
    tgt = os.path.join(scratch(), "target")
    if not os.path.isdir(tgt):
        os.makedirs(tgt)
        _seed_target(tgt)
    env = cargo_env()
    onoff = "on" if debug_assertions else "off"
    args = ["-C", "opt-level=3", "-C", "debug-assertions=" + onoff, "-C", "overflow-checks=" + onoff, "-Awarnings",
            "-C", "codegen-units=16"]
    src = VERIF + "/harness"
    if check:
        args += ["--cfg", "verif_harness", "--cfg", 'verif_check="%s"' % check]
    cmd = ["cargo", "rustc", "--offline", "--locked", "--manifest-path", RUST + "/Cargo.toml", "--target-dir", tgt,
           "--bin", "rust", "--"] + args
    for attempt in range(16):
        if check:
            env["VERIF_HARNESS"] = src + "/hook.rs"
            env["VERIF_HARNESS_DIR"] = src
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch())
        if not r.returncode:
            break
        # a function whose name or signature no test pins may have changed: go on without what calls it
        lines = [int(x) for x in re.findall(r"--> %s/%s\.rs:(\d+):" % (re.escape(src), (check or "").lower()), r.stdout, re.M)]
        if not check or not lines:
            break
        if src == VERIF + "/harness":
            src = scratch() + "/parts_of_%s/harness" % check
            shutil.copytree(VERIF + "/harness", src)
            shutil.copytree(VERIF + "/data", src + "/../data")
        p = src + "/%s.rs" % check.lower()
        old = open(p).read()
        new = _without(old, lines)
        if new == old:
            break
        open(p, "w").write(new)
        left_out.append("harness of %s: built without what no longer compiles at lines %s" % (check, sorted(set(lines))))
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise BuildError("the program does not build" + (" with the harness of " + check if check else ""))
    out = os.path.join(scratch(), "bin_%s_%s" % (check or "plain", onoff))
    shutil.copy2(tgt + "/debug/rust", out)
    return out


class BuildError(Exception):
    pass


def build_reference():
    out = os.path.join(scratch(), "refbin")
    if not os.path.exists(out):
        r = subprocess.run(["rustc", "--edition", "2021", "-O", "-Awarnings", "-o", out, VERIF + "/harness/refmain.rs"],
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise BuildError("the reference does not build")
    return out
