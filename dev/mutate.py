#!/usr/bin/env python3
"""Developer tool: apply one-line mutants to a copy of the sources and see which checks notice.
usage: mutate.py [-s SCALE] [names or property ids...]   (mutants in dev/mutants.py)"""
import subprocess, sys, os, shutil, re
SLOT = os.environ.get("SLOT", "")
VM = "/tmp/vm" + SLOT
V = "/verif"
exec(open(V + "/dev/mutants.py").read())   # M = [(name, ids, file, old, new)]
args = sys.argv[1:]
scale = "1"
if args[:1] == ["-s"]:
    scale = args[1]; args = args[2:]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
os.makedirs(VM, exist_ok=True)
sh(f"rsync -a --delete --exclude=.git --exclude=evidence --exclude=replays --exclude=target {V}/ {VM}/")
if not os.path.exists(VM + "/target"): sh(f"cp -a {V}/target {VM}/target; rm -rf {VM}/target/release/.fingerprint/mango-v4* {VM}/target/release/.fingerprint/harness* {VM}/target/release/.fingerprint/margin-trade* {VM}/target/release/.fingerprint/checked*")
res = []
for name, ids, file, old, new in M:
    if args and name not in args and not any(a in ids.split() for a in args): continue
    R = "/tmp/mutrepo" + SLOT
    sh(f"mkdir -p {R}; rsync -a --delete --exclude=target --exclude=.git /repo/programs /repo/lib /repo/ts /repo/mango_v4.json {R}/")
    p = f"{R}/" + (file if file.startswith(("lib/", "programs/", "ts/", "mango_v4.json")) else "programs/mango-v4/src/" + file)
    s = open(p).read()
    n = s.count(old)
    if n < 1: print(name, "NO MATCH"); continue
    open(p, "w").write(s.replace(old, new, 1))
    b = sh(f"cd {VM} && REPO={R} bash bin/sync.sh && CARGO_INCREMENTAL=0 cargo build --release -p harness 2>&1 | tail -30")
    if "error" in b.stdout and "could not compile" in b.stdout: print(name, "BUILD FAIL", b.stdout[-1500:]); continue
    if file.startswith("ts/") or any(i in ("C26", "C27", "C28", "C29") for i in ids.split()):
        b = sh(f"cd {VM} && REPO={R} bash bin/ts.sh")
        if b.returncode: print(name, "TS BUILD FAIL", b.stdout[-500:], b.stderr[-500:]); continue
    out = []
    for i in ids.split():
        r = sh(f"cd {VM} && SCALE={scale} VERIF_SEED=1 timeout 900 target/release/harness check {i} quick")
        m = re.search(r"^(%s .*fails:.*)$" % i, r.stdout, re.M)
        out.append(f"{i}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode} {m.group(1)[:170] if m else ''}")
    print(name, "|", " | ".join(out), flush=True)
