#!/usr/bin/env python3
"""Supervisor of the runtime monitors.

check.py <property> quick|thorough    build the monitors with /repo's working tree, run those of the property
check.py setup                        build everything that the quick checks need
check.py replay <file>                run what a replay file says again
"""
import fcntl
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MON = os.path.join(ROOT, "mon")
TARGET = os.path.join(MON, "target")
SCRATCH = os.path.join(ROOT, "replays")

# Which builds of the monitors are run for a property. Default is just the plain one
BUILDS = {
    "C22": ["plain", "oidn"],
    "C02": ["plain", "oidn"],
    "C04": ["sanitizers"],
}


def log(text):
    print(text, flush=True)


def environment():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "RAYON_NUM_THREADS"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTFLAGS="--cfg solstrale_verif",
        RUST_BACKTRACE="0",
    )
    return env


def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def run_build(cmd, env, target, tail=60):
    """One cargo build, that also notices changes that keep the modification times"""
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".source-hash")
        now = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != now:
            clean = ["cargo"] + (["+nightly"] if "+nightly" in cmd else []) + ["clean", "--offline", "--release", "-p", "solstrale"]
            if "--target" in cmd:
                clean += ["--target", cmd[cmd.index("--target") + 1]]
            subprocess.run(clean, cwd=MON, env=dict(env, CARGO_TARGET_DIR=target), capture_output=True)
        p = subprocess.run(cmd, cwd=MON, env=dict(env, CARGO_TARGET_DIR=target), capture_output=True, text=True)
        if p.returncode != 0:
            log("\n".join(p.stderr.splitlines()[-tail:]))
            log("the monitors can not be built")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(now)


def build_plain(features=()):
    name = "-".join(("plain",) + tuple(features))
    target = TARGET
    cmd = ["cargo", "build", "--offline", "--release", "--locked"]
    if features:
        cmd += ["--features", ",".join(features)]
    run_build(cmd, environment(), target)
    # The next build with other features replaces the program
    src = os.path.join(target, "release", "mon")
    dst = os.path.join(target, "release", "mon-" + name)
    if os.path.exists(dst):
        os.remove(dst)
    os.link(src, dst)
    return dst


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_worker(exe, prop, tier, seed, only=None, budget=None, env=None, limit=True, wrapper=(), timeout=None):
    """Runs the monitors of a property, returns what they observed"""
    os.makedirs(SCRATCH, exist_ok=True)
    out = os.path.join(SCRATCH, f".{prop}.{os.getpid()}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = list(wrapper) + [exe, prop, "--tier", tier, "--seed", str(seed), "--out", out]
    if only:
        cmd += ["--only", only]
    if budget:
        cmd += ["--budget", str(budget)]
    if timeout is None:
        timeout = 560 if tier == "quick" else 3600
    start = time.time()
    p = subprocess.Popen(
        cmd, cwd=REPO, env=env or environment(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, errors="replace", start_new_session=True, preexec_fn=limits if limit else None,
    )
    try:
        stdout, stderr = p.communicate(timeout=timeout)
        timed_out = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        stdout, stderr = p.communicate()
        timed_out = True
    result = {}
    if os.path.exists(out):
        with open(out) as f:
            result = json.load(f)
        os.remove(out)
    result.setdefault("violations", [])
    result["stderr"] = stderr
    result["returncode"] = p.returncode
    if timed_out:
        result["violations"].append({"workload": only or "", "index": 0, "message": f"did not finish within {timeout} s"})
    elif p.returncode == -signal.SIGKILL:
        log(stderr[-2000:])
        log("the monitors were killed from outside")
        sys.exit(2)
    elif p.returncode not in (0, 1) or (p.returncode == 1 and not result["violations"]):
        what = f"signal {-p.returncode}" if p.returncode < 0 else f"exit code {p.returncode}"
        result["violations"].append({
            "workload": only or "", "index": 0,
            "message": f"process ended by {what}: {stderr[-1500:]}",
        })
    result["wall"] = time.time() - start
    return result


def merge(total, result, label):
    cov = total["coverage"]
    cov["evaluations"] += result.get("evaluations", 0)
    cov["distinct_nontrivial"] += result.get("distinct_nontrivial", 0)
    if result.get("rule"):
        cov["rule"] = result["rule"]
    prefix = f"{label}: " if label != "plain" else ""
    cov["samples"] += [prefix + s for s in result.get("samples", [])]
    for k, v in result.get("counters", {}).items():
        cov["observed"][prefix + k] = cov["observed"].get(prefix + k, 0) + v
    if result.get("cut_short"):
        cov["observed"][prefix + "stopped by the time budget"] = 1
    for v in result["violations"]:
        total["violations"].append(dict(v, build=label))
    total["known"].update(result.get("known", {}))


def findings():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def report(prop, tier, seed, total, start):
    """Writes the evidence and prints the verdict, returns the exit code"""
    known_keys = {f["key"]: f for f in findings()["known"] if f["property"] == prop}
    for key, text in sorted(total["known"].items()):
        if key in known_keys:
            log(f"KNOWN-FINDING: property={prop} {key}: {text}")
        else:
            total["violations"].append({"workload": key, "index": 0, "message": text, "build": "plain"})
    cov = total["coverage"]
    cov["samples"] = cov["samples"][:24]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": total["assumptions"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(total["violations"]),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if not total["violations"]:
        log(f"{prop} held: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct and non-trivial, {evidence['wall_s']} s")
        return 0
    os.makedirs(SCRATCH, exist_ok=True)
    for n, v in enumerate(total["violations"][:5]):
        path = os.path.join(SCRATCH, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, seed=seed), f, indent=1)
        log(f"{v['workload']}#{v['index']}: {v['message'][:1500]}")
        log(f"VIOLATION property={prop} replay={path}")
    return 1


def new_total():
    return {
        "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}},
        "assumptions": [
            "the oracles of the monitors are right; they are written independently of the code under test",
            "the monitored executions are those of this run, with its seed and the schedules that occurred",
        ],
        "violations": [],
        "known": {},
    }


def check(prop, tier, only=None, seed=None, builds=None):
    start = time.time()
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    total = new_total()
    for b in builds or BUILDS.get(prop, ["plain"]):
        if b == "sanitizers":
            import sanitize
            sanitize.run(sys.modules[__name__], prop, tier, seed, total, only)
            continue
        exe = build_plain(("oidn",) if b == "oidn" else ())
        merge(total, run_worker(exe, prop, tier, seed, only), b)
        if total["violations"] and tier == "quick":
            break
    return report(prop, tier, seed, total, start)


def main():
    if sys.argv[1] == "setup":
        build_plain()
        build_plain(("oidn",))
        import sanitize
        sanitize.setup(sys.modules[__name__])
        return 0
    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        only = f"{r['workload']}#{r['index']}" if r["workload"] else None
        builds = [r["build"]] if r.get("build") in ("plain", "oidn") else None
        return check(r["property"], r["tier"], only, r["seed"], builds)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(sys.argv[1], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.modules["check"] = sys.modules[__name__]
    sys.exit(main())
