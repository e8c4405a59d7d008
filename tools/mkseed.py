#!/usr/bin/env python3
"""Create and validate planted bugs.

usage: mkseed.py SPEC.py [id ...]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks,
demo_rs=<body of main.rs> or demo_sh=<shell body using $AT>)]. Each seed is applied to a
scratch copy of /repo; it is kept only if the copy builds, all stable tests pass, the demo
exits 0 without and non-zero with the change, and it removes or changes original lines.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys

SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"
W = pathlib.Path("/tmp/seedwork")
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
HEAD = """#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
"""
RS = HEAD + """mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
at-x64 = { path = "$repo/at-x64" }
at-mac = { path = "$repo/at-mac" }
at-obj = { path = "$repo/at-obj" }
at-asm = { path = "$repo/at-asm" }
[workspace]
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cargo build -q --offline --manifest-path "$d/Cargo.toml" --target-dir "$d/target" >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
cd "$d"
"$d/target/debug/demo"
"""
SH = HEAD + """cargo build -q --offline --manifest-path "$repo/Cargo.toml" -p at-asm --bin at-asm --target-dir "$d/target" >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
AT=$d/target/debug/at-asm
mkdir "$d/w"
cd "$d/w"
"""
PRE = """#![allow(dead_code, unused_imports, unused_macros)]
fn asm(src: &str) -> Vec<u8> {
    let mut out = Vec::new();
    at_asm::Assembler::new().read_from(&mut src.as_bytes()).write_into(&mut out);
    out
}
fn words(big: bool, w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| if big { x.to_be_bytes() } else { x.to_le_bytes() }).collect()
}
macro_rules! endian {
    ($big:expr) => {
        at_mac::header::Header64::read_from(&mut &words($big, &[0xfeedfacf, 0x0100_0007, 3, 1, 0, 0, 0, 0])[..]).1
    };
}
fn refused<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f).is_err();
    let _ = std::panic::take_hook();
    r
}
"""


def sh(cmd, cwd, env=ENV, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    if W.exists():
        shutil.rmtree("/tmp/seedwork")
    sh(["git", "clone", "-q", "/repo", str(W)], "/tmp")


def make(s):
    sid = s["id"]
    sh(["git", "checkout", "-q", "--", "."], W)
    base = sh(["git", "log", "--grep=^base", "--format=%h"], W).stdout.split()
    for f, old, new in s["edits"]:
        p = W / f
        t = p.read_text()
        if t.count(old) != 1:
            return f"edit matches {t.count(old)} times in {f}: {old!r}"
        p.write_text(t.replace(old, new))
    patch = sh(["git", "diff"], W).stdout
    # removed lines must include original ones
    orig = mine = 0
    for f in {e[0] for e in s["edits"]}:
        bl = sh(["git", "blame", "-s", "HEAD", "--", f], W).stdout.splitlines()
        for l in sh(["git", "diff", "-U0", "--", f], W).stdout.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:]
                st, n = (a.split(",") + ["1"])[:2]
                for i in range(int(st), int(st) + int(n)):
                    if bl[i - 1].startswith("^"):
                        orig += 1
                    else:
                        mine += 1
    if not orig or mine:
        return f"original lines {orig}, own lines {mine}"
    env = dict(ENV, CARGO_TARGET_DIR="/tmp/seedwork-target")
    r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--lib", "--bins"], W, env)
    ok = r.stdout.count(" ... ok")
    if r.returncode or ok < len(BASE):
        return f"tests: rc {r.returncode}, {ok} ok\n{r.stdout[-800:]}"
    warn = r.stdout.count("warning:")
    tmp = pathlib.Path("/tmp/seeddemo")
    if tmp.exists():
        shutil.rmtree("/tmp/seeddemo")
    tmp.mkdir()
    if "demo_rs" in s:
        (tmp / "demo.rs").write_text(PRE + s["demo_rs"].strip() + "\n")
        (tmp / "demo.sh").write_text(RS)
    else:
        (tmp / "demo.sh").write_text(SH + s["demo_sh"].strip() + "\n")
    bad = sh(["bash", str(tmp / "demo.sh")], W)
    if bad.returncode in (0, 3):
        return f"demo with patch: rc {bad.returncode}\n{bad.stdout[-600:]}"
    sh(["git", "checkout", "-q", "--", "."], W)
    good = sh(["bash", str(tmp / "demo.sh")], W)
    if good.returncode != 0:
        return f"demo without patch: rc {good.returncode}\n{good.stdout[-600:]}"
    dst = SEEDED / sid
    dst.mkdir(parents=True, exist_ok=True)
    for p in tmp.iterdir():
        shutil.copy(p, dst / p.name)
    (dst / "patch.diff").write_text(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(dst / "meta.json", "w"), indent=1)
    return f"ok (warnings {warn}) bad-rc {bad.returncode}"


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    copy()
    for s in seeds:
        if not want or s["id"] in want:
            print(s["id"], make(s), flush=True)


main()
