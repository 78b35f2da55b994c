#!/usr/bin/env python3
"""Writes and validates /verif/seeded/<id>/ (planted bugs). Usage: seeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seed_list import SEEDS
RUST = {**os.environ, "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": ""}

CARGO = r'''#!/bin/bash
# builds demo.rs against the code under test in a scratch directory and runs it there
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
plotline = { path = "$repo/plotline" }
%s
[workspace]
EOT
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
'''
IVSH = r'''#!/bin/bash
# compiles a copy of the interval crate (its plugin module left empty) and runs demo.rs against it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r plugins/interval/src "$d/src"
: > "$d/src/plugin.rs"
cd "$d"
rustc --edition 2021 -A warnings --crate-type rlib --crate-name interval --cfg 'feature="date"' src/lib.rs -o libinterval.rlib || exit 0
rustc --edition 2021 -A warnings "$here/demo.rs" --extern interval=libinterval.rlib -o demo || exit 0
timeout 20 ./demo
'''
PROG = r'''#!/bin/bash
# builds the program in a scratch directory and runs it there
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/target" timeout 280 cargo build --offline -q -p plotline-cli --bin plotline || exit 0
bin=$d/target/debug/plotline
cd "$d"
%s'''


def sh(cmd, cwd, env=RUST, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    want = sys.argv[1:]
    copy = "/tmp/seedcopy"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        sh(["git", "checkout", "-q", "--", "."], copy)
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        kind = s.get("kind", "core")
        if kind != "program":
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        extra = {"core": "", "cli": 'plotline-cli = { path = "$repo/plotline-cli" }\nclap = { version = "4.5", features = ["derive"] }'}
        open(os.path.join(d, "demo.sh"), "w").write(IVSH if kind == "interval" else PROG % s["demo"] if kind == "program" else CARGO % extra[kind])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(["bash", os.path.join(d, "demo.sh")], copy)
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "ANCHOR", f, t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh(["git", "diff"], copy).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            t = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], copy)
            ok = t.stdout.count("... ok")
            r1 = sh(["bash", os.path.join(d, "demo.sh")], copy)
            good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0 and ok >= 12
            print(s["id"], "GOOD" if good else "BAD", "demo %d -> %d" % (r0.returncode, r1.returncode), "tests", t.returncode, ok, flush=True)
            if not good:
                print(r0.stdout[-1500:], "\n--\n", r1.stdout[-1500:], "\n--\n", t.stdout[-1500:] if t.returncode else "")
    shutil.rmtree(copy, ignore_errors=True)


main()
