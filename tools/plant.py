#!/usr/bin/env python3
"""Development helper: builds seeded bugs from a spec file and confirms them in a scratch copy.

    plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, main)].
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
DEMO = r'''#!/bin/bash
# Run with the repository as the working directory: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "harness"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
stable-fs = { path = "$repo/stable-fs" }
ic-stable-structures = "0.7.2"
EOF
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo build --offline > build.log 2>&1 || { tail -30 build.log; exit 3; }
"$tmp/target/debug/harness"
'''
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_pre.rs")).read()

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def demo(d, cwd):
    try:
        return sh(f"bash {d}/demo.sh", cwd=cwd, timeout=280)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess("", 124, "timeout")

ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
if not os.path.exists(W):
    sh(f"cp -a /repo {W}")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    sh("git checkout -q -f HEAD -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    ok = True
    by_file = {}
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = f"{W}/stable-fs/src/{f}"
        s = open(p).read()
        if s.count(old) < 1 or (s.count(old) > 1 and not b.get("first")):
            print(b["id"], "EDIT matches", s.count(old), repr(old[:60])); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if not ok: continue
    diff = sh("git diff", cwd=W).stdout
    # lines removed must be of the base commit
    t = sh(f"cargo test --workspace --exclude integration-tests --no-fail-fast --offline --locked -- --test-threads 8 > {W}/t.log 2>&1; python3 /opt/vp/results.py {W}/t.json cargo:{W}/t.log", cwd=W)
    try:
        r = json.load(open(f"{W}/t.json"))
    except Exception:
        print(b["id"], "NO RESULTS", sh(f"grep -A9 '^error' {W}/t.log | head -40").stdout); continue
    miss = stable - set(r["passed"])
    os.remove(f"{W}/t.json")
    if miss:
        print(b["id"], "TESTS FAIL", len(miss), sorted(miss)[:4], sh(f"grep -A9 '^error' {W}/t.log | head -20").stdout); continue
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    open(f"{d}/main.rs", "w").write(PRE + b["main"])
    shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/demo.lock")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad = demo(d, W)
    good = demo(d, "/repo")
    if good.returncode == 0 and bad.returncode not in (0, 2, 3, 124):
        print(b["id"], "CONFIRMED", bad.stdout.strip().splitlines()[-3:] if bad.stdout else "")
    else:
        print(b["id"], "DEMO", good.returncode, bad.returncode, good.stdout[-600:], "|||", bad.stdout[-600:])
        shutil.rmtree(d)
    sys.stdout.flush()
sh("git checkout -q -f HEAD -- .", cwd=W)
