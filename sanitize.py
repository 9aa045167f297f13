"""C04: runs the workloads under ThreadSanitizer, AddressSanitizer with checks of all unsafe
preconditions, the Miri interpreter, and plainly with a watchdog for threads that stand still"""
import os
import subprocess
import threading

HOST = "x86_64-unknown-linux-gnu"

TSAN_SUPPRESSIONS = """
# Fences are not understood by ThreadSanitizer, the lock-free queues of these libraries rely on them
race:crossbeam_deque
race:crossbeam_epoch
"""


def target(check, name):
    return os.path.join(check.MON, "target", name)


def environment(check, rustflags):
    env = check.environment()
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTFLAGS"] = f"--cfg solstrale_verif {rustflags}"
    return env


def build_tsan(check):
    env = environment(check, "-Zsanitizer=thread")
    cmd = ["cargo", "+nightly", "build", "--offline", "--release", "--locked", "-Zbuild-std", "--target", HOST, "--features", "oidn"]
    check.run_build(cmd, env, target(check, "tsan"))
    return os.path.join(target(check, "tsan"), HOST, "release", "mon")


def build_asan(check):
    env = environment(check, "-Zsanitizer=address -Zub-checks=yes")
    cmd = ["cargo", "+nightly", "build", "--offline", "--release", "--locked", "--target", HOST, "--features", "oidn"]
    check.run_build(cmd, env, target(check, "asan"))
    return os.path.join(target(check, "asan"), HOST, "release", "mon")


def miri_env(check, seed, aliasing=False):
    """The aliasing rules of Rust are not settled, and the thread pool is known to not follow the
    experimental ones in rare schedules, so they are only part of some executions"""
    env = environment(check, "")
    env["MIRIFLAGS"] = (
        "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-deterministic-floats "
        + ("-Zmiri-tree-borrows " if aliasing else "-Zmiri-disable-stacked-borrows ")
        + f"-Zmiri-seed={seed}"
    )
    env["CARGO_TARGET_DIR"] = target(check, "miri")
    return env


def run_miri(check, seed, cases, prop, workload="threads", parallel=8, budget=600):
    """Each case in an interpreter of its own. Returns (index, return code, stderr, result)"""
    env = miri_env(check, seed)
    os.makedirs(check.SCRATCH, exist_ok=True)
    # The build, and an interpreter that does nothing
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--features", "oidn", "--"]
    p = subprocess.run(base + ["C04", "--only", "nothing#0", "--out", "/dev/null"], cwd=check.MON, env=env, capture_output=True, text=True, errors="replace")
    if p.returncode != 0:
        check.log(p.stderr[-4000:])
        check.log("the monitors can not be interpreted")
        raise SystemExit(2)
    results = []
    todo = list(cases)
    lock = threading.Lock()
    import time
    end = time.time() + budget

    def work():
        while True:
            with lock:
                if not todo or time.time() > end or any(bad(r) for r in results):
                    return
                i = todo.pop(0)
            out = os.path.join(check.SCRATCH, f".{prop}.miri.{os.getpid()}.{i}.json")
            aliasing = i // 9 % 2 == 1
            e = miri_env(check, seed * 1000 + i, aliasing)
            cmd = base + [prop, "--seed", str(seed), "--budget", "100000", "--only", f"{workload}#{i}", "--out", out]
            q = subprocess.Popen(cmd, cwd=check.MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
            try:
                _, err = q.communicate(timeout=max(1, end - time.time() + 120))
                rc = q.returncode
            except subprocess.TimeoutExpired:
                os.killpg(q.pid, 9)
                _, err = q.communicate()
                rc = None
            result = {}
            if os.path.exists(out):
                import json
                with open(out) as f:
                    text = f.read()
                os.remove(out)
                result = json.loads(text) if text else {}
            if aliasing and rc not in (0, None) and not result and pool_internal(err):
                rc, result = None, {"skipped": True}
            with lock:
                results.append((i, rc, err, result))

    def bad(r):
        return r[1] is not None and (r[1] != 0 or r[3].get("violations"))

    threads = [threading.Thread(target=work) for _ in range(parallel)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results


def pool_internal(err):
    """Whether the aliasing rules are broken by the thread pool itself"""
    text = err[err.find("error: Undefined Behavior"):]
    first = next((line for line in text.splitlines() if line.strip().startswith("-->")), "")
    return "Tree Borrows" in text and any(f"/{c}-" in first for c in ("rayon-core", "rayon", "crossbeam-epoch", "crossbeam-deque", "crossbeam-utils"))


def essence(err):
    """What a sanitizer says, without the lines around it"""
    lines = err.splitlines()
    for i, line in enumerate(lines):
        if any(k in line for k in ("WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "unsafe precondition", "error: Undefined Behavior", "error: deadlock", "error: abnormal")):
            return "\n".join(lines[i:i + 45])
    return "\n".join(lines[-25:])


def run_sanitizer(check, exe, name, env, prop, tier, seed, only, budget, total, own=True):
    """One monitor under a sanitizer. For the workloads of other properties only what the sanitizer says counts"""
    r = check.run_worker(exe, prop, tier, seed, only, budget, env=env, limit=False, timeout=budget + 400)
    if not own:
        r["violations"] = []
        if r["returncode"] not in (0, 1, -9):
            r["violations"] = [{"workload": only or "", "index": 0, "message": ""}]
    for v in r["violations"]:
        if r["returncode"] not in (0, 1):
            v["message"] = f"process ended with {r['returncode']}: {essence(r['stderr'])}"
        v["message"] = f"{name}, monitor {prop}: {v['message']}"
    r["samples"] = r.get("samples", [])[:2]
    r["rule"] = r["rule"] if own and "rule" in r else ""
    r["known"] = {}
    r["counters"] = {f"{prop} {k}" if not own else k: v for k, v in r.get("counters", {}).items() if own or k.startswith("cases ")}
    check.merge(total, r, name)
    return not r["violations"]


OTHERS_QUICK = {"C26": 8, "C05": 5, "C16": 4, "C18": 6, "C20": 3, "C21": 4, "C22": 4, "C03": 4, "C17": 4}
OTHERS_THOROUGH = {**{f"C{i:02}": 60 for i in range(1, 30) if i != 4}, "C26": 200, "C19": 200}


def run(check, prop, tier, seed, total, only):
    quick = tier == "quick"
    # No sanitizer, but many executions with a watchdog
    exe = check.build_plain(("oidn",))
    check.merge(total, check.run_worker(exe, prop, tier, seed, only, 20 if quick else 200), "plain")
    if total["violations"]:
        return
    supp = os.path.join(target(check, "tsan"), "suppressions")
    exe = build_tsan(check)
    with open(supp, "w") as f:
        f.write(TSAN_SUPPRESSIONS)
    env = dict(check.environment(), TSAN_OPTIONS=f"suppressions={supp} halt_on_error=1 exitcode=66 history_size=4")
    ok = run_sanitizer(check, exe, "ThreadSanitizer", env, prop, "quick" if quick else tier, seed, only, 60 if quick else 500, total)
    others = {"C26": 8} if quick else {"C26": 200, "C01": 60, "C02": 60, "C03": 60, "C05": 60, "C18": 60, "C21": 60, "C22": 60}
    for o, budget in others.items():
        ok = ok and (only is not None or run_sanitizer(check, exe, "ThreadSanitizer", env, o, "quick", seed, None, budget, total, False))
    if not ok:
        return
    exe = build_asan(check)
    env = dict(check.environment(), ASAN_OPTIONS="detect_leaks=0 exitcode=67 detect_stack_use_after_return=1 allocator_may_return_null=1")
    ok = run_sanitizer(check, exe, "AddressSanitizer", env, prop, tier, seed, only, 20 if quick else 300, total)
    for o, budget in (OTHERS_QUICK if quick else OTHERS_THOROUGH).items():
        ok = ok and (only is not None or run_sanitizer(check, exe, "AddressSanitizer", env, o, "quick", seed, None, budget, total, False))
    if not ok:
        return
    if only is not None and "#" in only:
        cases = [int(only.rsplit("#", 1)[1])]
    else:
        cases = range(18 if quick else 160)
    for i, rc, err, result in run_miri(check, seed, cases, prop, budget=100 if quick else 1500):
        if rc is None:
            what = "breaks the experimental aliasing rules within the thread pool" if result.get("skipped") else "cut short by the time budget"
            total["coverage"]["observed"][f"Miri: {what}"] = total["coverage"]["observed"].get(f"Miri: {what}", 0) + 1
            continue
        found = result.get("violations", [])
        if rc != 0 and not found:
            found = [{"workload": "threads", "index": i, "message": essence(err)}]
        for v in found:
            v["message"] = f"Miri: {v['message']}"
        check.merge(total, dict(result, violations=found, rule="", known={}), "Miri")


def setup(check):
    build_tsan(check)
    build_asan(check)
    run_miri(check, 1, [], "C04")
