#!/usr/bin/env python3
"""Developer tool. mkseed.py <id>: packs what seeded/<id>/demo.rs needs to run the on-chain program into
seeded/<id>/kit.tgz (dependency stand-ins, in-process runtime, ported client instructions) and writes demo.sh."""
import os, sys, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    D = f"{V}/seeded/{i}"
    T = tempfile.mkdtemp()
    for x in ["shims", "mango", "margin-trade", ".cargo", "rust-toolchain.toml", "Cargo.lock"]:
        s = f"{V}/{x}"
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f"{T}/{x}")
    os.makedirs(f"{T}/harness")
    shutil.copytree(f"{V}/harness/src", f"{T}/harness/src", ignore=shutil.ignore_patterns("props", "main.rs"))
    lib = open(f"{V}/harness/src/lib.rs").read().replace("pub mod props;\n", "")
    open(f"{T}/harness/src/lib.rs", "w").write(lib)
    c = open(f"{V}/harness/Cargo.toml").read()
    c = c.replace('[features]\ndefault = ["services"]\nservices = ["svc"]\n', "").replace('svc = { path = "../services/svc", optional = true }\n', "")
    assert "svc" not in c
    c += '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n'
    open(f"{T}/harness/Cargo.toml", "w").write(c)
    open(f"{T}/Cargo.toml", "w").write('[workspace]\nmembers = ["mango", "margin-trade", "harness"]\nexclude = ["shims", "build"]\n\n[profile.dev]\ndebug = 0\nincremental = false\n')
    # deterministic archive
    subprocess.check_call(["tar", "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-czf", f"{D}/kit.tgz", "-C", T, "."], env={**os.environ, "GZIP": "-n"})
    shutil.rmtree(T)
    open(f"{D}/demo.sh", "w").write('''#!/bin/bash
# Runs demo.rs (beside this file) against the program sources in the current directory (/repo).
# Everything is built and run in a scratch directory. exit 0: the property holds in the scenario.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
tar xzf "$D/kit.tgz" -C "$S" || exit 3
mkdir -p "$S/build/src"
cp -r "$R/programs" "$R/lib" "$S/build/src/" || exit 3
cp "$D/demo.rs" "$S/harness/src/main.rs" || exit 3
cd "$S" || exit 3
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --offline -q --bin demo > build.log 2>&1 || { tail -40 build.log; exit 3; }
./target/debug/demo
''')
    os.chmod(f"{D}/demo.sh", 0o755)
