#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE: reads OLD/NEW text blocks from a python file and writes seeded/<ID>/patch.diff.
Usage from python: plant(id, prop, [(path, old, new)], needs, breaks, demo, extra_files={})"""
import os, subprocess, json, sys, tempfile
ROOT = "/verif/seeded"
def plant(id, prop, edits, needs, breaks, demo, extra={}):
    d = os.path.join(ROOT, id); os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        for path, old, new in edits:
            p = os.path.join(t, path); s = open(p).read(); k = 0
            if isinstance(old, tuple): old, k = old
            else: assert s.count(old) == 1, (id, path, s.count(old))
            i = -1
            for _ in range(k + 1): i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in extra.items(): open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
RUSTC_DEMO = '''#!/bin/bash
# Links demo.rs with the modules that build.sh compiled.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
t=${CARGO_TARGET_DIR:-/repo/target}/debug
rustc --edition 2021 -o "$tmp/demo" "$here/demo.rs" --extern ec_modules="$t/libec_modules.rlib" -L dependency="$t/deps" EXTRA || exit 1
"$tmp/demo"
'''
def rustc_demo(*crates):
    x = ""
    for c in crates: x += f' --extern {c}="$(ls -t "$t"/deps/lib{c}-*.rlib | head -1)"'
    return RUSTC_DEMO.replace(" EXTRA", x)
SPECGEN_DEMO = '''#!/bin/bash
# Runs the generator on a copy of the sources.
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/ethereum-consensus" && cp -r /repo/ethereum-consensus/src "$tmp/ethereum-consensus/src" || exit 1
cd "$tmp" || exit 1
s=ethereum-consensus/src
'''
