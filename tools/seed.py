#!/usr/bin/env python3
"""Try one planted bug in a scratch copy: seed.py ID [--no-check] [--check P1,P2] [--skip-tests]
Builds, runs demo (must pass), applies the patch, builds, runs the stable tests and the demo (must fail), then the checks."""
import json, os, shutil, subprocess, sys
V = "/verif"; SC = "/tmp/sc"; SB = "/tmp/scb"
E = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
  RUSTFLAGS="-A dangerous_implicit_autorefs", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
def run(c, **k): return subprocess.run(c, shell=True, cwd=SC, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def sync():
    if not os.path.exists(SC): subprocess.run(f"cp -a /repo {SC}", shell=True, check=True)
    run("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD")
def build():
    r = run("cargo test --workspace --no-run --offline")
    if r.returncode: print(r.stdout[-3000:]); print("BUILD FAILED"); sys.exit(1)
sid = sys.argv[1]; d = f"{V}/seeded/{sid}"
meta = json.load(open(f"{d}/meta.json"))
sync(); build()
r = run(f"bash {d}/demo.sh"); print("demo on unchanged tree:", r.returncode, r.stdout[-400:] if r.returncode else "")
bad = r.returncode != 0
r = run(f"git apply {d}/patch.diff")
if r.returncode: print("patch does not apply", r.stdout); sys.exit(1)
try:
    build()
    r = run(f"bash {d}/demo.sh"); print("demo with patch:", r.returncode, r.stdout[-300:])
    bad |= r.returncode == 0
    if "--skip-tests" not in sys.argv:
        r = run("rm -f *.hxy *.wav; (timeout 700 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip check_matrix_tseq_perf; cargo test --offline --test basics -- --test-threads 1 --exact check_matrix_tseq_perf) > /tmp/sc_test.log 2>&1; python3 /opt/vp/results.py /tmp/sc_res.json cargo:/tmp/sc_test.log")
        res = json.load(open("/tmp/sc_res.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in base if t not in res["passed"]]
        print("stable tests not passing:", miss[:8], len(miss)); bad |= bool(miss)
    print("SEED", sid, "BAD" if bad else "counts")
    if "--no-check" not in sys.argv:
        ps = sys.argv[sys.argv.index("--check") + 1].split(",") if "--check" in sys.argv else [meta["property"]]
        for p in ps:
            e = dict(os.environ, VERIF_REPO=SC, VERIF_BUILD=SB)
            r = subprocess.run([f"{V}/check.py", p], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            print(p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout else "MISSED"); print(r.stdout[-700:]); print(r.stderr[-500:] if r.returncode != 1 else "")
finally:
    run("git checkout -q -- .")
