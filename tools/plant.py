"""Tries planted bugs in scratch copies of /repo.

plant.py make SPEC.py        writes seeded/<id>/ for each bug of a specification (see mk)
plant.py verify ID...        applies, builds, tests and runs demo.sh before and after, in a scratch copy
plant.py check ID [CHECK..]  runs checks (default: the one of its property) on a copy with the bug applied
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

LIB = r'''#!/bin/bash
# Runs the functions of demo.rs, compiled into a scratch copy of the program: exit 0 if they behave.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/rust" "$work/target/debug"
cp -r "$repo/rust/src" "$repo/rust/Cargo.toml" "$repo/rust/Cargo.lock" "$work/rust/"
for sub in .fingerprint build deps; do
	mkdir -p "$work/target/debug/$sub"
	(cd "$repo/rust/target/debug/$sub" 2>/dev/null && ls -A | grep -v '^rust-' | xargs -r -I{} cp -a {} "$work/target/debug/$sub/")
done
cat "$here/demo.rs" >> "$work/rust/src/main.rs"
cd "$work/rust" || exit 3
export CARGO_TARGET_DIR="$work/target"
timeout 280 cargo test --offline --bin rust planted_demo:: -- --test-threads=1
'''

SH = r'''#!/bin/bash
# Runs the program and its scripts in a scratch directory: exit 0 if the results are as they should be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/bin" "$work/run/target/release"
cp "$repo"/rust/*.sh "$repo"/rust/*.py "$work/run/"
cp "$repo/rust/target/debug/rust" "$work/run/target/release/rust"
printf '#!/bin/sh\nexit 0\n' > "$work/bin/cargo"
chmod +x "$work/bin/cargo"
export PATH="$work/bin:$PATH"
cd "$work/run" || exit 3
fail() { echo "DEMO: $*"; exit 1; }
'''


def mk(id, prop, edits, needs, breaks, rs=None, sh=None, files=None):
    d = os.path.join(V, "seeded", id)
    w = tempfile.mkdtemp(prefix="mk_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, "rust", f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                raise SystemExit("%s: %d occurrences in %s of: %s" % (id, n, f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if rs:
        open(d + "/demo.rs", "w").write("\n#[cfg(test)]\nmod planted_demo {\n    #![allow(unused_imports)]\n    use crate::sequences::{equivalence::*, fourier::*, matching::*, matrices::*, matrix_equivalence::*, mum::*, product::*, rowsum::*, sequence::*, symmetries::*};\n    use crate::sequences::williamson::{QuadSeq, SequenceTag, QUADRUPLETS};\n    use crate::find::*;\n    use crate::find::find_write::*;\n    use crate::find::find_unique::*;\n\n" + rs.strip("\n") + "\n}\n")
    open(d + "/demo.sh", "w").write(LIB if rs else SH + sh.strip("\n") + "\nexit 0\n")
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def env():
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", NEXTEST_NO_INPUT_HANDLER="1")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    return e


def run(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def demo(d, repo):
    t = tempfile.mkdtemp(prefix="demo_")
    try:
        for f in os.listdir(d):
            if f != "meta.json" and not f.endswith((".diff", ".patch")):
                shutil.copy2(os.path.join(d, f), t)
        return run(["bash", t + "/demo.sh"], repo, 300)
    finally:
        shutil.rmtree(t)


COPY = "/tmp/pl/repo"


def copy(c=COPY):
    if not os.path.isdir(c):
        subprocess.run(["cp", "-a", "/repo", c], check=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True, cwd=c, check=True)
    return c


def verify(ids):
    c = copy()
    rc, o = run(["cargo", "build", "--offline"], c + "/rust")
    assert rc == 0, o
    good = {}
    for i in ids:
        rc, o = demo(V + "/seeded/" + i, c)
        good[i] = rc == 0
        if rc:
            print("%s: demo exits %d on the unchanged tree\n%s" % (i, rc, o[-2000:]))
    for i in ids:
        d = V + "/seeded/" + i
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=c, check=True)
        rc, o = run(["git", "apply", d + "/patch.diff"], c)
        if rc:
            print(i, "does not apply", o); continue
        rc, o = run(["bash", "-c", "cargo build --offline && cargo test --no-run --offline"], c + "/rust")
        if rc:
            print(i, "does not build", o[-1500:]); continue
        rc, o = run(["cargo", "nextest", "run", "--no-fail-fast", "--offline", "--profile", "default", "--tool-config-file", "vp:/opt/vp/nextest.toml"], c + "/rust")
        ok = {m.replace("rust::bin/rust ", "rust::bin/rust::") for m in re.findall(r"PASS \[[^\]]*\] (?:\([^)]*\) )?(\S+ \S+)", o)}
        miss = sorted(x for x in STABLE if x not in ok)
        rc, o2 = demo(d, c)
        print(i, "OK" if not miss and rc and good[i] else "BAD", "tests failing: %s" % miss[:4] if miss else "", "demo rc %d" % rc, flush=True)
        if "-v" in sys.argv:
            print(o2[-1500:])
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=c, check=True)


def check(i, checks):
    d = V + "/seeded/" + i
    c = copy("/tmp/pl/c_" + i)
    try:
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=c, check=True)
        for k in checks or [json.load(open(d + "/meta.json"))["property"]]:
            ev = tempfile.mkdtemp(prefix="ev_")
            p = subprocess.run(["python3", V + "/check.py", k], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE=ev, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(ev)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, k, "CAUGHT" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, (v or [""])[0], flush=True)
            if "-v" in sys.argv:
                print(p.stdout[-3000:])
    finally:
        shutil.rmtree(c)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "-v"]
    if a[0] == "make":
        exec(open(a[1]).read())
    elif a[0] == "verify":
        verify(a[1:])
    else:
        check(a[1], a[2:])
