#!/usr/bin/env python3
"""C24: runs the workload of all monitors under AddressSanitizer, ThreadSanitizer and Miri, and many more
cases of it in a build which checks the preconditions of unsafe operations and arithmetic overflow only.

Only reports of the instrumentation count here (memory errors, data races, undefined behaviour,
violated preconditions of unsafe operations, arithmetic overflow, death by signal); wrong answers
and ordinary panics are judged by the monitors of the other properties.
exit 0 nothing reported, 1 VIOLATION, 2 no verdict."""
import json, os, re, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")
BUDGET = 780 if TIER == "thorough" else 420
TARGET = "x86_64-unknown-linux-gnu"
# property: cases under (ASan, TSan, Miri, checked build) in the quick tier
WORK = {
    "C01": (20000, 3000, 20, 60000), "C02": (6000, 3000, 0, 10000), "C03": (100000, 5000, 20, 300000), "C04": (100000, 5000, 20, 400000),
    "C05": (200000, 8000, 30, 1200000), "C06": (200000, 8000, 30, 1200000), "C07": (200000, 8000, 30, 1200000), "C08": (60000, 4000, 20, 500000),
    "C09": (20000, 2000, 20, 120000), "C10": (20000, 2000, 20, 120000), "C11": (20000, 1000, 20, 150000), "C12": (60000, 4000, 20, 300000),
    "C13": (30000, 4000, 20, 200000), "C14": (50000, 4000, 20, 300000), "C15": (100000, 5000, 20, 800000), "C16": (100000, 5000, 20, 600000),
    "C17": (100000, 5000, 20, 800000), "C18": (80000, 5000, 20, 500000), "C19": (100000, 5000, 20, 600000), "C20": (100000, 8000, 30, 500000),
    "C21": (1200, 300, 3, 10000), "C22": (100000, 5000, 30, 1500000), "C25": (20000, 2000, 20, 100000),
    "C26": (100000, 5000, 30, 1500000), "C27": (100000, 5000, 30, 1000000), "C28": (80000, 5000, 20, 500000),
    "C29": (60, 0, 0, 300),
}
KINDS = ("asan", "tsan", "miri", "checked")
# C23 repeats what the others do on every backend
FEATURES = "plain_alloc," + ",".join(p for p in WORK)
BAD = re.compile(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|Undefined Behavior|LSMON-UB|unsafe precondition|has overflowed its stack|error: memory leaked|error: .*data race")

def env(kind):
    e = dict(os.environ)
    base = e.get("RUSTFLAGS", "") + " --cap-lints warn"
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", LSMON_SANITIZE="1",
             CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_DEBUG="line-tables-only", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="64",
             CARGO_TARGET_DIR=f"{V}/build/c24-{kind}")
    if kind == "asan":
        base += " -Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0"
    elif kind == "checked":
        e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "2"
    elif kind == "tsan":
        base += " -Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:history_size=4"
    else:
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
        e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = base
    return e

def build(kind):
    cmd = ["cargo", "build", "--release", "--offline", "--no-default-features", "--features", FEATURES, "--target", TARGET]
    if kind == "tsan":
        cmd.append("-Zbuild-std")
    if kind == "miri":
        cmd = ["cargo", "miri", "run", "--offline", "--no-default-features", "--features", FEATURES, "--", "--list"]
    t = time.time()
    with open(f"{V}/build/c24-{kind}.log", "w") as f:
        rc = subprocess.call(cmd, cwd=f"{V}/harness", env=env(kind), stdout=f, stderr=f)
    return kind, rc, time.time() - t

def props(listing):
    return [p for p in listing.split() if p in WORK]

def run(kind, prop, cases, scratch, limit):
    e = env(kind)
    out = f"{scratch}/{kind}-{prop}.json"
    args = ["--prop", prop, "--cases", str(cases), "--seed", SEED, "--verif", scratch]
    if kind == "miri":
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--no-default-features", "--features", FEATURES, "--", "--lite"] + args + ["--wall-cap", str(int(limit))]
        cwd = f"{V}/harness"
    else:
        cmd = [f"{V}/build/c24-{kind}/{TARGET}/release/lsmon", "--worker", "--out", out, "--wall-cap", str(int(limit)), "--cpu-limit", "200"] + args
        cwd = scratch
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    timed_out = False
    try:
        txt, _ = p.communicate(timeout=limit + (60 if kind != "miri" else 30))
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, 9)
        txt, _ = p.communicate()
    r = {"kind": kind, "prop": prop, "rc": p.returncode, "wall": round(time.time() - t, 1), "cmd": " ".join(cmd), "calls": 0, "evals": 0, "distinct": 0, "timed_out": timed_out}
    if kind == "miri":
        m = re.findall(r"LITE prop=\S+ evals=(\d+) calls=(\d+)", txt)
        if m:
            r["evals"], r["calls"] = int(m[-1][0]), int(m[-1][1])
            r["distinct"] = r["evals"]
    elif os.path.exists(out):
        d = json.load(open(out))
        r["evals"], r["calls"], r["distinct"] = d["evals"], d["counts"].get("library_calls", 0), d["distinct"]
        r["samples"] = d["samples"][:1]
        if d.get("err"):
            r["harness_error"] = d["err"]
    hit = BAD.search(txt)
    sig_death = (not timed_out) and p.returncode < 0 and p.returncode not in (-9, -15)
    if hit or sig_death or (kind == "tsan" and p.returncode == 66):
        i = hit.start() if hit else max(0, len(txt) - 4000)
        r["report"] = txt[max(0, i - 500):i + 6000]
        r["what"] = txt[i:i + 200].splitlines()[0] if hit else f"died by signal {-p.returncode}"
    return r

def main():
    for d in ("build", "evidence", "replays"):
        os.makedirs(f"{V}/{d}", exist_ok=True)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        b = build(r["kind"])
        if b[1] != 0:
            return 2
        sc = tempfile.mkdtemp(prefix="lsmon-c24-")
        try:
            x = run(r["kind"], r["workload"], r["cases"], sc, 300)
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        print(x.get("report", "replay: held"))
        return 1 if "report" in x else 0
    with ThreadPoolExecutor(4) as ex:
        built = {k: (rc, w) for k, rc, w in ex.map(build, KINDS)}
    for k in ("asan", "tsan", "checked"):
        if built[k][0] != 0:
            print(f"BUILD-FAILED property=C24 {k}")
            print(open(f"{V}/build/c24-{k}.log").read()[-3000:])
            return 2
    mult = 8 if TIER == "thorough" else 1
    scratch = tempfile.mkdtemp(prefix="lsmon-c24-")
    results = []
    try:
        ids = props(subprocess.run([f"{V}/build/c24-asan/{TARGET}/release/lsmon", "--list"], env=env("asan"), capture_output=True, text=True).stdout)
        left = lambda: BUDGET - (time.time() - T0)
        # Miri is single threaded: several at a time, beside the sanitizers
        with ThreadPoolExecutor(4) as mx:
            fut = []
            if built["miri"][0] == 0:
                for p in ids:
                    n = WORK[p][2] * (6 if TIER == "thorough" else 1)
                    if n:
                        fut.append(mx.submit(lambda p=p, n=n: run("miri", p, n, scratch, max(5, min(90 if TIER == "thorough" else 14, left()))) if left() > 10 else None))
            for p in ids:
                for i, kind in ((0, "asan"), (1, "tsan"), (3, "checked")):
                    if left() > 15 and WORK[p][i]:
                        results.append(run(kind, p, WORK[p][i] * (mult if p != "C29" else min(mult, 8)), scratch, min(left(), 14 if TIER == "thorough" else 10)))
            results += [r for r in (f.result() for f in fut) if r]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tot = {}
    for r in results:
        t = tot.setdefault(r["kind"], {"workloads": 0, "evaluations": 0, "library_calls": 0, "distinct_inputs": 0, "cut_off": 0})
        t["workloads"] += 1; t["evaluations"] += r["evals"]; t["library_calls"] += r["calls"]; t["distinct_inputs"] += r["distinct"]; t["cut_off"] += r["timed_out"]
    bad = [r for r in results if "report" in r]
    notes = []
    if built["miri"][0] != 0:
        notes.append("Miri could not be built here; its part was skipped")
    ev = {
        "property": "C24", "tier": TIER if TIER == "thorough" else "quick", "seed": int(SEED), "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results), "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": "the generated inputs of the other properties' monitors, run under AddressSanitizer, ThreadSanitizer (std instrumented) and Miri, and in a plain build, all with overflow checks and checked preconditions of unsafe operations; distinct non-trivial inputs by the rule of each workload",
            "samples": [{"workload": r["prop"], "under": r["kind"], "sample": r.get("samples", [])} for r in results if r.get("samples")][:3] or ["none"],
            "observed": tot, "build_seconds": {k: round(w, 1) for k, (rc, w) in built.items()}, "notes": notes,
            "per_workload": [{k: r[k] for k in ("kind", "prop", "evals", "calls", "wall", "rc", "timed_out")} for r in results],
        },
        "assumptions": ["leaks are not judged", "races are seen only on the schedules that occurred", "unwinding out of a library call is judged by the other monitors"],
        "wall_s": time.time() - T0, "violations": len(bad),
    }
    json.dump(ev, open(f"{V}/evidence/C24.json", "w"), indent=1)
    if bad:
        for i, r in enumerate(bad):
            path = f"{V}/replays/C24-{r['kind']}-{r['prop']}.json"
            json.dump({"property": "C24", "kind": r["kind"], "workload": r["prop"], "cases": max(r["evals"], WORK[r["prop"]][0]), "seed": int(SEED),
                       "what": r["what"], "report": r["report"], "replay_cmd": f"./check.sh C24 --replay {path}"}, open(path, "w"), indent=1)
            if i == 0:
                print(f"VIOLATION property=C24 replay={path}")
            print(f"  {r['kind']} {r['prop']}: {r['what']}")
        print(bad[0]["report"][:3000])
        return 1
    err = [r for r in results if r.get("harness_error")]
    if err:
        print(f"INCONCLUSIVE property=C24: {err[0]['harness_error']}")
        return 2
    if tot.get("checked", {}).get("library_calls", 0) < 1000 or tot.get("asan", {}).get("library_calls", 0) < 1000 or tot.get("tsan", {}).get("library_calls", 0) < 1000:
        print(f"INCONCLUSIVE property=C24: too few library calls observed {tot}")
        return 2
    print(f"OK property=C24 nothing reported: {tot} in {time.time()-T0:.0f}s")
    return 0

sys.exit(main())
