#!/usr/bin/env python3
"""mkbug.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (Rust), run (optional prefix of the cargo run command)."""
import sys, os, json, subprocess
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['id']
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
try:
    for f, old, new in ns['edits']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/demo.rs', 'w').write(ns['demo'].lstrip())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
halo = { path = "$PWD" }
subtle = "*"
[profile.release]
debug-assertions = true
[workspace]
END
cd "$W" || exit 2
%sCARGO_TARGET_DIR="$W/target" cargo build --offline --release --quiet || exit 3
%s target/release/demo
''' % (ns.get('flags', ''), ns.get('run', '')))
json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
