#!/usr/bin/env python3
"""Driver: builds the encoding of /repo's current source and decides one property.

  check.py --setup            build engine, bitcode and native replayer
  check.py C01 [--tier quick] decide property C01
  check.py --replay FILE      replay a stored counterexample natively
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TC = "nightly-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
BIN = f"/root/.rustup/toolchains/{TC}/lib/rustlib/{TARGET}/bin"
EVID = os.path.join(VERIF if REPO == "/repo" else BUILD, "evidence")
RUN_BUDGET = 560  # seconds of symbolic execution a quick check may use in total
sys.path.insert(0, VERIF)
import specs

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env(rustflags, target):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             RUSTFLAGS=rustflags, CARGO_TARGET_DIR=target, RUSTC_WRAPPER="")
    return e

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        log(f"command failed ({r.returncode}): {' '.join(cmd[:6])}\n" + r.stdout[-6000:])
        sys.exit(2)
    return r.stdout

def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        fs = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fl in os.walk(root) for f in fl if "/target/" not in d)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()

def stamp_ok(name, key):
    p = os.path.join(BUILD, name + ".stamp")
    return os.path.exists(p) and open(p).read() == key

def set_stamp(name, key):
    with open(os.path.join(BUILD, name + ".stamp"), "w") as f:
        f.write(key)

def repo_key():
    return tree_hash([f"{REPO}/src", f"{REPO}/Cargo.toml"])

def harness_key():
    return tree_hash([f"{VERIF}/harness/src", f"{VERIF}/harness/Cargo.toml", f"{VERIF}/harness/Cargo.lock"])

def harness_dir(name):
    """The harness crate; when a scratch copy of the repository is checked the path dependency points there."""
    d = f"{VERIF}/harness"
    if REPO != "/repo":
        d = f"{BUILD}/harness_{name}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f"{VERIF}/harness", d, ignore=shutil.ignore_patterns("target"))
        t = open(f"{d}/Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"')
        open(f"{d}/Cargo.toml", "w").write(t)
    return d

def build_engine():
    key = tree_hash([f"{VERIF}/engine/src", f"{VERIF}/engine/build.rs", f"{VERIF}/engine/Cargo.toml"])
    exe = f"{BUILD}/symex"
    if os.path.exists(exe) and stamp_ok("engine", key):
        return exe
    t = time.time()
    e = env("", f"{BUILD}/engine_t")
    sh(["cargo", "build", "--release", "--offline"], cwd=f"{VERIF}/engine", env=e)
    shutil.copy2(f"{BUILD}/engine_t/release/symex", exe)
    set_stamp("engine", key)
    log(f"built the symbolic executor in {time.time()-t:.0f} s")
    return exe

def forget(tdir, names):
    """drop cargo's cached artefacts of the given crates: nothing stale survives whatever the mtimes say"""
    for base, dirs, files in os.walk(tdir):
        for d in list(dirs):
            if any(d == n or d.startswith(n + "-") for n in names):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                dirs.remove(d)
        for f in files:
            if any(f.startswith(p + n) and not f[len(p + n):][:1].isalnum() for n in names for p in ("", "lib")):
                os.unlink(os.path.join(base, f))

def build_bitcode():
    key = repo_key() + harness_key()
    red = f"{BUILD}/red.bc"
    if os.path.exists(red) and stamp_ok("bitcode", key):
        return red
    t = time.time()
    tdir = f"{BUILD}/bc_t"
    forget(tdir, ["hexharness"] + ([] if stamp_ok("bc_repo", repo_key()) else ["hexodsp"]))
    set_stamp("bc_repo", repo_key())
    e = env("-A dangerous_implicit_autorefs --emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp -Cembed-bitcode=no -Awarnings", tdir)
    sh(["cargo", "build", "--offline", "-Zbuild-std=std,panic_abort", "--target", TARGET, "--lib"], cwd=harness_dir("bc"), env=e)
    newest = {}
    for f in glob.glob(f"{tdir}/{TARGET}/debug/**/*.bc", recursive=True):
        b = os.path.basename(f)
        if re.match(r"(lib)?(autocfg|panic_unwind|panic_abort)-", b) or "rcgu" in b:
            continue
        n = b.rsplit("-", 1)[0]
        k = (n, b) if n not in ("hexodsp", "hexharness") else (n, "")
        if k not in newest or os.path.getmtime(f) > os.path.getmtime(newest[k]):
            newest[k] = f
    sh([f"{BIN}/llvm-link"] + sorted(newest.values()) + ["-o", f"{BUILD}/all.bc"])
    api = ",".join(sorted(set(re.findall(r"\bh_[a-z0-9_]+", open(f"{VERIF}/harness/src/lib.rs").read()))))
    sh([f"{BIN}/opt", "-passes=internalize,globaldce", f"-internalize-public-api-list={api}", f"{BUILD}/all.bc", "-o", red])
    os.unlink(f"{BUILD}/all.bc")
    set_stamp("bitcode", key)
    log(f"built the LLVM bitcode of /repo, its dependencies and the harnesses in {time.time()-t:.0f} s")
    return red

def build_replay():
    key = repo_key() + harness_key()
    exe = f"{BUILD}/replay_bin"
    if os.path.exists(exe) and stamp_ok("replay", key):
        return exe
    t = time.time()
    tdir = f"{BUILD}/replay_t"
    forget(tdir, ["hexharness", "replay"] + ([] if stamp_ok("rp_repo", repo_key()) else ["hexodsp"]))
    set_stamp("rp_repo", repo_key())
    e = env("-A dangerous_implicit_autorefs -Awarnings", tdir)
    sh(["cargo", "build", "--offline", "--features", "replay", "--profile", "replaydev", "--bin", "replay"], cwd=harness_dir("rp"), env=e)
    shutil.copy2(f"{tdir}/replaydev/replay", exe)
    set_stamp("replay", key)
    log(f"built the native replayer in {time.time()-t:.0f} s")
    return exe

def replay_once(exe, entry, f, valgrind=False, timeout=30):
    cmd = [exe, entry, f]
    if valgrind:
        cmd = ["valgrind", "--error-exitcode=99", "-q"] + cmd
        timeout = 180
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=BUILD)
        return r.returncode, r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "hang", ""

def confirm(exe, entry, f):
    """Does the real code show the violation on the solver's input?  (confirmed?, what was seen)"""
    label = open(f).readline()
    if "memory error" in label:
        code, out = replay_once(exe, entry, f, valgrind=True)
        if code in (99, 101, 88) or (isinstance(code, int) and code < 0) or code == "hang":
            return True, f"valgrind/exit {code}: " + out[-600:]
    # hash seeds differ between runs: a few attempts
    for i in range(25):
        code, out = replay_once(exe, entry, f)
        if code == 88 or code == 101 or code == "hang" or (isinstance(code, int) and (code < 0 or code >= 128)):
            return True, f"exit {code}: " + "\n".join(l for l in out.splitlines() if not l.startswith("replay: ") or "assertion" in l)[-800:]
    return False, f"exit {code}"

def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if args[:1] == ["--build-replay"]:
        build_replay()
        return 0
    lock = open(f"{BUILD}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if args[:1] == ["--setup"]:
        build_engine(); build_bitcode(); build_replay()
        return 0
    if args[:1] == ["--replay"]:
        f = args[1]
        entry = re.search(r"^#entry (\S+)", open(f).read(), re.M).group(1)
        ok, seen = confirm(build_replay(), entry, f)
        print("reproduced: " if ok else "not reproduced: ", seen)
        return 1 if ok else 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evf = f"{EVID}/{pid}.json"
    if os.path.exists(evf) and not only:
        os.unlink(evf)
    eng = build_engine()
    bg = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--build-replay"])  # in parallel with the bitcode
    bc = build_bitcode()
    if bg.wait() != 0:
        return 2
    build_s = time.time() - t0
    runs, violations, known, problems = [], [], [], []
    rep = None
    validated = 0
    samples = []
    budget = spec.get("budget", {}).get(tier, RUN_BUDGET if tier == "quick" else 6000)
    t_run = time.time()
    for h in spec["harnesses"]:
        if only and h["entry"] != only:
            continue
        if tier == "quick" and h.get("thorough_only"):
            continue
        name = h["entry"] + h.get("suffix", "")
        out = f"{BUILD}/out/{pid}_{name}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        params = dict(h.get("params", {}))
        if tier == "thorough":
            params.update(h.get("thorough", {}))
        left = max(30, int(budget - (time.time() - t_run)))
        cmd = [eng, "--bc", bc, "--entry", h["entry"], "--out", out, "--jobs", "8", "--time", str(min(left, h.get("time", 100000))), "--max-instr", str(h.get("max_instr", 400_000_000))]
        if params:
            cmd += ["--params", ",".join(f"{k}={v}" for k, v in sorted(params.items()))]
        if "rlimit" in h:
            cmd += ["--rlimit", str(h["rlimit"])]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        try:
            res = json.load(open(f"{out}/result.json"))
        except Exception:
            res = {"complete": False, "marks": {}, "paths_ok": 0}
        res["harness"] = name
        res["bounds"] = h.get("bounds", "") % params if params else h.get("bounds", "")
        res["params"] = params
        runs.append(res)
        log(f"{pid} {name}: exit {r.returncode}, paths {res.get('paths_ok')}, queries {res.get('queries')}, {res.get('wall_s')} s")
        viols = sorted(glob.glob(f"{out}/viol_*.txt"))
        if viols:
            if rep is None:
                rep = build_replay()
            for v in viols:
                label = open(v).readline()[2:].strip()
                ok, seen = confirm(rep, h["entry"], v)
                if ok:
                    rd = f"{EVID}/replay"
                    os.makedirs(rd, exist_ok=True)
                    dst = f"{rd}/{pid}_{os.path.basename(v)}"
                    body = open(v).read()
                    with open(dst, "w") as f:
                        f.write(body.split("\n", 1)[0] + f"\n#entry {h['entry']}\n" + body.split("\n", 1)[1])
                    rec = {"harness": name, "label": label, "replay": dst, "native": seen}
                    if h.get("known") and h["known"]["label"] in label:
                        known.append((h["known"], rec))
                    else:
                        violations.append(rec)
                else:
                    problems.append(f"{name}: counterexample not reproduced natively ({label}; native: {seen}); see {v}")
            if violations:
                break
            continue
        if h.get("known") and r.returncode == 0:
            continue  # the recorded defect no longer shows
        if r.returncode != 0 or not res.get("complete"):
            problems.append(f"{name}: incomplete (exit {r.returncode}): {r.stderr[-700:]}")
        elif res.get("paths_ok", 0) < 1:
            problems.append(f"{name}: vacuous, no path completes")
        else:
            miss = [m for m in h.get("marks", []) if str(m) not in res["marks"]]
            if miss:
                problems.append(f"{name}: vacuous, coverage marks {miss} not reached")
    # validate the encoding: solver models of completed paths must complete natively as well
    if not violations and not problems and (tier == "thorough" or spec.get("validate", True)):
        rep = rep or build_replay()
        for h in spec["harnesses"]:
            if h.get("known") or h.get("novalidate") or (only and h["entry"] != only):
                continue
            name = h["entry"] + h.get("suffix", "")
            oks = sorted(glob.glob(f"{BUILD}/out/{pid}_{name}/ok_*.txt"))[: 12 if tier == "thorough" else 4]
            for f in oks:
                code, out_ = replay_once(rep, h["entry"], f, timeout=60)
                if code == 0:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"harness": name, "inputs": [l for l in open(f).read().split("\n") if l][:40]})
                else:
                    ok, seen = confirm(rep, h["entry"], f)
                    problems.append(f"{name}: engine and native run disagree on {f}: exit {code} {out_[-300:]}")
    tot = lambda k: sum(r.get(k, 0) or 0 for r in runs)
    funcs = sorted({f for r in runs for f in r.get("functions", [])})
    cov = {
        "states": tot("paths_ok") + tot("paths_assumed_out") + tot("paths_violating"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": not problems,
        "explanation": "states = symbolic execution paths (each covers every input value satisfying its path condition); transitions = LLVM IR instructions interpreted symbolically; bounds per harness below; anything outside them is not covered",
        "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "solver_s": round(tot("solver_s"), 2), "assertions_evaluated": tot("asserts"),
        "functions_encoded_total": max([r.get("functions_total", 0) for r in runs] or [0]),
        "functions_encoded_hexodsp": funcs,
        "harnesses": [{k: r.get(k) for k in ("harness", "bounds", "params", "complete", "paths_ok", "paths_assumed_out", "paths_violating", "forks", "queries", "unsat", "unknown", "solver_s", "max_query_s", "instructions", "asserts", "marks", "wall_s")} for r in runs],
        "repo_source_sha256": repo_key(), "build_s": round(build_s, 1),
        "problems": problems,
        "known_findings": [k["id"] for k, _ in known],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if violations:
        ev["violation_records"] = violations
    if not only:
        with open(evf, "w") as f:
            json.dump(ev, f, indent=1)
    seen = set()
    for k, rec in known:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    for v in violations:
        print(f"violated: {v['label']} (harness {v['harness']}); native run: {v['native'][:400]}")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    if violations:
        return 1
    if problems:
        for p in problems:
            log("ERROR:", p)
        return 2
    log(f"{pid}: holds within the bounds ({cov['states']} paths, {cov['queries_discharged']} queries, {ev['wall_s']} s)")
    return 0

if __name__ == "__main__":
    sys.exit(main())
