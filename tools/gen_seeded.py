#!/usr/bin/env python3
"""Writes seeded/<id>/ from the table below (patches are made against /repo's HEAD in a scratch copy)."""
import os, json, subprocess, shutil, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it: 0 = behaves, nonzero = broken
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1; cd "$repo"
w=$(mktemp -d /tmp/seed_demo.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redstone-ml = { path = "$repo" }
[workspace]
T
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use redstone_ml::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn panics<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(|| { f(); })).is_err() }
'''
BUGS = []
def bug(id, prop, edits, main, needs, breaks): BUGS.append((id, prop, edits, main, needs, breaks))
exec(open(os.path.join(V, "tools", "seeded_table.py")).read())
only = sys.argv[1:]
tmp = "/tmp/seed_gen"
shutil.rmtree(tmp, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
for id, prop, edits, main, needs, breaks in BUGS:
    if only and id not in only: continue
    for f, a, b in edits:
        p = os.path.join(tmp, f); s = open(p).read()
        n = 1
        if isinstance(a, tuple): a, n = a
        parts = s.split(a)
        assert len(parts) > n, (id, f, a)
        if n == 1 and len(parts) != 2: print("warning: not unique", id, len(parts) - 1)
        s = a.join(parts[:n]) + b + a.join(parts[n:])
        open(p, "w").write(s)
    d = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", tmp, "checkout", "-q", "--", "."], check=True)
    o = os.path.join(V, "seeded", id); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.sh", "w").write(DEMO)
    open(o + "/main.rs", "w").write(PRE + main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
shutil.rmtree(tmp, ignore_errors=True)
