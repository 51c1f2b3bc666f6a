"""Development tool: writes seeded/<id>/ from an edit of /repo and confirms it in a scratch copy.
usage: plant(id, property, [(file, old, new)], demo_rs or demo_sh, needs, breaks)"""
import json, os, shutil, subprocess, sys

W = "/tmp/plant/repo"
LIB_SH = """#!/bin/bash
# exits non-zero if the code in the current directory breaks the property (see meta.json)
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/p/src"
cp "$here/demo.rs" "$w/p/src/main.rs"
cp "$repo/Cargo.lock" "$w/p/"
cat > "$w/p/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
sc = { path = "$repo" }
[profile.dev]
opt-level = 2
debug = false
E
cd "$w/p" || exit 2
export HOME=/root CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline -q --target-dir "$w/t" || exit 2
mkdir "$w/run" && cd "$w/run" || exit 2
timeout 200 "$w/t/debug/demo"
"""
BIN_SH = """#!/bin/bash
# exits non-zero if the program built from the current directory breaks the property (see meta.json)
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
export HOME=/root CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline -q --release --bin sc --target-dir "$w/t" 2>/dev/null || exit 2
mkdir "$w/run" && cd "$w/run" || exit 2
SC="$w/t/release/sc"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.exists(W):
        sh("git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD" % W)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s checkout -q -f %s" % (W, head))
    sh("git -C %s clean -qfd -e target" % W)


def plant(pid, prop, edits, demo, needs, breaks, kind="lib", extra=None, run_tests=True):
    d = "/verif/seeded/" + pid
    fresh()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if isinstance(old, tuple):      # (text, which occurrence)
            old, k = old
            parts = s.split(old)
            assert len(parts) > k + 1, (pid, "occurrence", old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            assert s.count(old) == 1, (pid, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    diff = sh("git -C %s diff" % W).stdout
    # must change lines of the original repository
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if kind == "lib":
        open(d + "/demo.rs", "w").write(demo)
        open(d + "/demo.sh", "w").write(LIB_SH)
    else:
        open(d + "/demo.sh", "w").write(BIN_SH + demo)
    for n, t in (extra or {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/plant/target", CARGO_NET_OFFLINE="true")
    if run_tests:
        r = sh("cd %s && cargo test --workspace --offline --locked -- --skip initialise_energy" % W, env=env)
        ok = r.returncode == 0
        print(pid, "tests with patch:", "pass" if ok else "FAIL\n" + (r.stdout + r.stderr)[-1500:])
        if not ok:
            return False
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    r = sh("cd %s && bash %s/demo.sh" % (W, d), env=env)
    print(pid, "demo with patch:", r.returncode, r.stdout.strip()[-300:], r.stderr.strip()[-300:])
    bad = r.returncode
    fresh()
    r = sh("cd %s && bash %s/demo.sh" % (W, d), env=env)
    print(pid, "demo without:", r.returncode, r.stdout.strip()[-300:], r.stderr.strip()[-300:])
    ok = bad not in (0, 2) and r.returncode == 0
    print(pid, "OK" if ok else "**** NOT CONFIRMED")
    return ok
